#!/usr/bin/env python3
"""Make and confirm planted bugs (nothing registered in MANIFEST.json uses this).

plant.py make            write seeded/<id>/ for every entry of the files in plant/
plant.py confirm [ID..]  patched copy compiles, its tests pass, the demo tells it from the clean copy
plant.py check [ID..]    apply to /repo, run the property's check, undo
plant.py trial [-j N] [ID|PROPERTY..]   the same in private copies that are mounted over /repo
                         and /verif in a mount namespace of their own, N at a time
plant.py quiet [-j N] [NAME..]  run the checks on the behaviour-preserving edits of tools/refactor/
"""
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile, threading, glob
V = '/verif'; R = '/repo'
DEMO = '''#!/bin/bash
# run with cwd at the repository: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH=/root/.cargo/bin:$PATH
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here/main.rs" "$tmp/src/main.rs" && cp "$here/Cargo.lock" "$tmp/Cargo.lock" || exit 1
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "h"
version = "0.1.0"
edition = "2021"
[dependencies]
lfa = { path = "$repo", features = ["serde"] }
ndarray = { version = "0.15", features = ["serde-1"] }
spaces = { version = "5.0", features = ["serialize"] }
serde = "1.0"
[workspace]
EOF
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" cargo run -q --offline
'''

def entries():
    out = []
    for f in sorted(glob.glob(os.path.join(V, 'tools/plant/*.py'))):
        spec = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        out += m.BUGS
    ids = [b['id'] for b in out]; assert len(ids) == len(set(ids)), ids
    return out

def scratch():
    d = tempfile.mkdtemp(prefix='lfa_', dir='/tmp'); shutil.rmtree(d)
    subprocess.check_call(['cp', '-a', R, d]); return d

def make(sel):
    d = scratch()
    for b in entries():
        if sel and b['id'] not in sel: continue
        subprocess.check_call(['git', '-C', d, 'checkout', '-q', '--', '.'])
        edits = b.get('edits') or [(b['file'], b['old'], b['new'])]
        for f, old, new in edits:
            p = os.path.join(d, f); s = open(p).read()
            nth, only = 0, True
            if isinstance(old, tuple): (old, nth), only = old, False
            if s.count(old) <= nth or (only and s.count(old) != 1):
                sys.exit(f"{b['id']}: {s.count(old)} matches of {old!r} in {f}")
            i = -1
            for _ in range(nth + 1): i = s.index(old, i + 1)
            open(p, 'w').write(s[:i] + new + s[i + len(old):])
        diff = subprocess.check_output(['git', '-C', d, 'diff'], text=True)
        o = os.path.join(V, 'seeded' if ours(diff) else 'tools/plant/extra', b['id']); os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        open(o + '/demo.sh', 'w').write(DEMO); os.chmod(o + '/demo.sh', 0o755)
        open(o + '/main.rs', 'w').write('#![allow(unused)]\n' + b['demo'].strip() + '\n')
        shutil.copy(V + '/harness/Cargo.lock', o + '/Cargo.lock')
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d)

BASE = 'fa5967d'

def ours(diff):
    """does the patch change a line of the original repository (not only insert, and not only lines a repair added)?"""
    if not hasattr(ours, 'anc'):
        ours.anc = subprocess.check_output(['git', '-C', R, 'rev-list', BASE], text=True).split(); ours.bl = {}
    f = None
    for l in diff.splitlines():
        if l.startswith('--- a/'): f = l[6:]
        elif l.startswith('@@'): n = int(l.split()[1][1:].split(',')[0])
        elif l.startswith(('---', '+++', 'diff', 'index')): pass
        elif l.startswith('-'):
            if f not in ours.bl:
                ours.bl[f] = [x.split()[0].lstrip('^') for x in subprocess.check_output(['git', '-C', R, 'blame', '-l', '-s', f], text=True).splitlines()]
            if l[1:].strip() and not l[1:].strip().startswith('//') and any(a.startswith(ours.bl[f][n - 1]) for a in ours.anc): return True
            n += 1
        elif l.startswith(' '): n += 1
    return False

def place(b):
    """bugs that only insert lines or change repaired ones are kept apart: they do not count as planted in the original code"""
    o = os.path.join(V, 'seeded', b['id'])
    return o if os.path.isdir(o) else os.path.join(V, 'tools/plant/extra', b['id'])

def confirm(sel):
    sel = sel or [b['id'] for b in entries()]
    if len(sel) > 4:
        ps = [subprocess.Popen([sys.executable, __file__, 'confirm1'] + sel[i::5]) for i in range(5)]
        return [p.wait() for p in ps]
    return confirm1(sel)

def confirm1(sel):
    d = scratch(); bad = []
    for b in entries():
        if sel and b['id'] not in sel: continue
        o = place(b)
        subprocess.check_call(['git', '-C', d, 'checkout', '-q', '--', '.'])
        r = subprocess.run(['bash', o + '/demo.sh'], cwd=d, capture_output=True, text=True)
        clean = r.returncode
        if clean: print(r.stdout[-800:], r.stderr[-1500:])
        subprocess.check_call(['git', '-C', d, 'apply', o + '/patch.diff'])
        env = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', PATH='/root/.cargo/bin:' + os.environ['PATH'])
        t = subprocess.run(['cargo', 'test', '--offline', '--lib', '-q'], cwd=d, capture_output=True, text=True, env=env)
        want = [x.split('src/lib.rs::')[1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'src/lib.rs::' in x]
        l = subprocess.run(['cargo', 'test', '--offline', '--lib'], cwd=d, capture_output=True, text=True, env=env)
        dt = subprocess.run(['cargo', 'test', '--offline', '--doc'], cwd=d, capture_output=True, text=True, env=env)
        ok = all(f'test {w} ... ok' in l.stdout for w in want)
        dwant = [x[4:] for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x.startswith('doc:')]
        dok = dt.stdout.count('... ok') >= len(dwant)
        r2 = subprocess.run(['bash', o + '/demo.sh'], cwd=d, capture_output=True, text=True)
        good = clean == 0 and ok and dok and r2.returncode not in (0,) and 'could not compile' not in r2.stderr
        print(('ok   ' if good else 'BAD  ') + b['id'], 'clean', clean, 'tests', ok, dok, 'patched', r2.returncode, flush=True)
        if not good: bad.append(b['id']); print(l.stdout[-1500:] if not ok else '', l.stderr[-1500:] if not ok else '', r2.stderr[-1000:], dt.stdout[-800:] if not dok else '')
    shutil.rmtree(d); print('bad:', bad)

def check(sel):
    missed = []
    for b in entries():
        if sel and b['id'] not in sel and b['property'] not in sel: continue
        o = place(b)
        assert not subprocess.check_output(['git', '-C', R, 'status', '--porcelain'])
        subprocess.check_call(['git', '-C', R, 'apply', o + '/patch.diff'])
        try:
            import time; t = time.time()
            r = subprocess.run(['python3-vt', 'engine/check.py', b['property']], cwd=V, capture_output=True, text=True)
        finally:
            subprocess.check_call(['git', '-C', R, 'checkout', '--', '.'])
        v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION property=' + b['property'] + ' ')]
        good = r.returncode == 1 and v
        print(('caught ' if good else 'MISSED ') + b['id'], 'rc', r.returncode, f'{time.time()-t:.0f}s', v[:1], flush=True)
        if not good: missed.append(b['id']); print(r.stdout[-1500:], r.stderr[-1500:])
    print('missed:', missed)


def isolated(n):
    """a private copy of /repo and /verif"""
    d = tempfile.mkdtemp(prefix='lfa_', dir='/tmp')
    subprocess.check_call(['rsync', '-a', '--exclude', '/target', R + '/', d + '/repo/']) if shutil.which('rsync') else \
        subprocess.check_call(f'mkdir {d}/repo && tar -C {R} --exclude=./target -cf - . | tar -C {d}/repo -xf -', shell=True)
    subprocess.check_call(f'mkdir {d}/verif && tar -C {V} --exclude=./seeded --exclude=./.git --exclude=./evidence -cf - . | tar -C {d}/verif -xf -', shell=True)
    return d

def inside(d, cmd):
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && ' + cmd],
                          capture_output=True, text=True)

def jobs(items, one, n):
    import threading, queue
    q = queue.Queue(); [q.put(i) for i in items]; bad = []
    def work():
        d = isolated(0)
        try:
            while True:
                try: i = q.get_nowait()
                except queue.Empty: return
                subprocess.check_call(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
                b = one(d, i)
                if b: bad.append(b)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work) for _ in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print('missed:' if one is trial1 else 'loud:', bad)

LOCK = threading.Lock()

def note(f, k, v):
    p = os.path.join(V, 'tools', f)
    with LOCK:
        j = json.load(open(p)) if os.path.exists(p) else {}
        j[k] = v
        json.dump(j, open(p, 'w'), indent=0, sort_keys=True)

def trial1(d, b):
    import time
    o = place(b)
    subprocess.check_call(['git', '-C', d + '/repo', 'apply', o + '/patch.diff'])
    t = time.time(); r = inside(d, 'python3-vt engine/check.py ' + b['property'])
    v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION property=' + b['property'] + ' ')]
    good = r.returncode == 1 and v
    print(('caught ' if good else 'MISSED ') + b['id'], 'rc', r.returncode, f'{time.time()-t:.0f}s', '' if good else r.stdout[-1500:] + r.stderr[-1500:], flush=True)
    note('trials.json', b['id'], [b['property'], 'caught' if good else 'missed', sorted({m for m in re.findall(r'^  (c\d\d_\w+): ', r.stdout, re.M)})[:3], round(time.time() - t)])
    return None if good else b['id']

def quiet1(d, job):
    import time
    name, prop, f, edits = job
    for f, old, new in edits:
        p = os.path.join(d, 'repo', f); s = open(p).read()
        nth = 0
        if isinstance(old, tuple): old, nth = old
        if s.count(old) <= nth: print('NO MATCH', name, old); return name
        i = -1
        for _ in range(nth + 1): i = s.index(old, i + 1)
        open(p, 'w').write(s[:i] + new + s[i + len(old):])
    t = time.time(); r = inside(d, 'python3-vt engine/check.py ' + prop)
    print(('quiet ' if r.returncode == 0 else 'LOUD  ') + name, prop, 'rc', r.returncode, f'{time.time()-t:.0f}s', '' if r.returncode == 0 else r.stdout[-2500:] + r.stderr[-1500:], flush=True)
    und = len(re.findall(r'^UNDECIDED', r.stdout, re.M))
    note('quiet.json', name + ' ' + prop, ['quiet' if r.returncode == 0 else 'loud', und, round(time.time() - t)])
    if und: print('   ', [l[:200] for l in r.stdout.splitlines() if l.startswith('UNDECIDED')], flush=True)
    return None if r.returncode == 0 else name + ':' + prop

def njobs(sel):
    n = 3
    if '-j' in sel: i = sel.index('-j'); n = int(sel[i + 1]); del sel[i:i + 2]
    return n

def trial(sel):
    n = njobs(sel)
    jobs([b for b in entries() if not sel or b['id'] in sel or b['property'] in sel], trial1, n)

def quiet(sel):
    n = njobs(sel); js = []
    for f in sorted(glob.glob(os.path.join(V, 'tools/refactor/*.py'))):
        spec = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for name, props, edits in m.EDITS:
            for p in props:
                if not sel or name in sel or p in sel: js.append((name, p, None, edits))
    jobs(js, quiet1, n)

if __name__ == '__main__':
    {'make': make, 'confirm': confirm, 'confirm1': confirm1, 'check': check, 'trial': trial, 'quiet': quiet}[sys.argv[1]](sys.argv[2:])
