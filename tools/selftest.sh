#!/bin/bash
# The engine's own test: harness/src/c99.rs has `good` harnesses that hold and `bad` ones that do not.
cd "$(dirname "$0")/.." || exit 2
python3-vt engine/check.py C99 --only good | tee /dev/stderr | grep -q "^\(UNDECIDED\|INCONCLUSIVE\|VIOLATION\)" && exit 1
for h in $(grep -o 'c99_bad_[a-z0-9_]*' harness/src/c99.rs); do
    python3-vt engine/check.py C99 --only "$h" | grep -q '^VIOLATION' || { echo "missed $h"; exit 1; }
done
echo fine
