#!/bin/bash
# nothing to install: checks compile what they need; this only checks that the tools are there
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3'
command -v gcc >/dev/null
RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH=/root/.cargo/bin:$PATH cargo --version
python3 -c "import json;json.load(open('MANIFEST.json'))"
