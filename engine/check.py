#!/usr/bin/env python3-vt
"""check.py Cnn [--tier quick|thorough] [--only HARNESS] : decide one property.

exit 0 holds within the bounds; 1 + VIOLATION line; 2 no answer."""
import glob
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import llparse
import native
import run
import smt

REPO = '/repo'


def build(pid, out):
    """compile the harness of one property with the current /repo -> (h.ll, libh.so, driver)"""
    env = dict(os.environ)
    env['RUSTUP_TOOLCHAIN'] = 'stable-x86_64-unknown-linux-gnu'
    env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '')
    env.setdefault('HOME', '/root')
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'CARGO_INCREMENTAL'):
        env.pop(k, None)
    tgt = os.path.join(VERIF, 'harness', 'target')
    env['CARGO_TARGET_DIR'] = tgt
    cmd = ['cargo', 'rustc', '--release', '--offline', '--locked', '--features', pid.lower(), '--',
           '--emit=llvm-ir,link', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp']
    drv = os.path.join(out, 'driver')
    g = subprocess.Popen(['gcc', '-O1', '-rdynamic', '-o', drv, os.path.join(VERIF, 'engine', 'driver.c'), '-ldl', '-lm'])
    # the harness crate and the lfa crate are always compiled afresh: cargo's own
    # freshness test goes by time stamps
    for pat in ('h-*', 'lfa-*'):
        for p in glob.glob(os.path.join(tgt, 'release', '.fingerprint', pat)):
            shutil.rmtree(p, ignore_errors=True)
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, 'harness'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if g.wait() != 0:
        print('cannot compile the native driver')
        sys.exit(2)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        print('the harness does not build')
        sys.exit(2)
    ll = os.path.join(tgt, 'release', 'deps', 'h.ll')
    so = os.path.join(tgt, 'release', 'libh.so')
    if not os.path.exists(so):
        so = os.path.join(tgt, 'release', 'deps', 'libh.so')
    shutil.copy(ll, os.path.join(out, 'h.ll'))
    shutil.copy(so, os.path.join(out, 'libh.so'))
    return os.path.join(out, 'h.ll'), os.path.join(out, 'libh.so'), drv


def encoded(mod, cov, ll):
    """names of the /repo functions whose code was executed symbolically"""
    ids = set()
    for fn, hits in cov.items():
        f = mod.fn(fn)
        for lab, h in zip(f.order, hits):
            if h:
                for s in f.blocks[lab]:
                    m = re.search(r'!dbg (![0-9]+)', s)
                    if m:
                        ids.add(m.group(1))
    class MD:
        def get(self, i, d=None):
            k = mod.mdlines.get(i)
            return d if k is None else mod.lines[k]
    md = MD()
    names = {}
    seen = set()
    work = list(ids)
    files = {}
    while work:
        i = work.pop()
        if i in seen:
            continue
        seen.add(i)
        l = md.get(i)
        if l is None:
            continue
        if 'DILocation(' in l or 'DILexicalBlock' in l:
            m = re.search(r'scope: (![0-9]+)', l)
            if m:
                work.append(m.group(1))
            m = re.search(r'inlinedAt: (![0-9]+)', l)
            if m:
                work.append(m.group(1))
        elif 'DISubprogram(' in l:
            m = re.search(r'name: "([^"]*)"', l)
            f = re.search(r'file: (![0-9]+)', l)
            fl = md.get(f.group(1), '') if f else ''
            fm = re.search(r'filename: "([^"]*)"', fl)
            path = fm.group(1) if fm else ''
            dm = re.search(r'directory: "([^"]*)"', fl)
            if dm and not path.startswith('/'):
                path = dm.group(1) + '/' + path
            k = path.find('/repo/src/')
            if m and k >= 0:
                files.setdefault(path[k + 10:], set()).add(m.group(1).split('{closure')[0] or m.group(1))
    return {k: sorted(v) for k, v in sorted(files.items())}


def load_known():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                out.append(json.loads(l))
    return out


def main():
    t0 = time.time()
    a = sys.argv[1:]
    pid = a.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = False
    while a:
        x = a.pop(0)
        if x == '--tier':
            tier = a.pop(0)
        elif x == '--only':
            only = a.pop(0)
        elif x == '-v':
            verbose = True
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    meta = json.load(open(os.path.join(VERIF, 'engine', 'bounds.json'))).get(pid, {})
    out = tempfile.mkdtemp(prefix='chk-%s-' % pid)
    try:
        rc = go(pid, tier, only, verbose, seed, meta, out, t0)
    finally:
        if os.environ.get('KEEP'):
            print('kept', out)
        else:
            shutil.rmtree(out, ignore_errors=True)
    sys.exit(rc)


def go(pid, tier, only, verbose, seed, meta, out, t0):
    ll, so, drv = build(pid, out)
    tb = time.time() - t0
    mod = llparse.Module(ll)
    hs = sorted(n for n in mod.defines if re.match(pid.lower() + r'_', n))
    if only:
        hs = [h for h in hs if only in h]
    if not hs:
        print('no harness for', pid)
        return 2
    thorough = tier == 'thorough'
    limit = meta.get('limit_s', {}).get(tier, 2400 if thorough else 420)
    cfg = dict(driver=drv, lib=so, tier=tier, workers=min(8, os.cpu_count() or 4), deadline=time.time() + limit, witness=True)

    def opts(h):
        o = dict(seed=seed, max_paths=2000000 if thorough else 400000, steps=40000000 if thorough else 10000000)
        if thorough:
            o.update(branch_ms=8000, check_ms=60000, prove_s=240)
        o.update(meta.get('opts', {}))
        o.update(meta.get('harness', {}).get(h, {}))
        return o

    last = [0]

    def log(h, t, p):
        if verbose and time.time() - last[0] > 3:
            last[0] = time.time()
            print('  .. %s paths=%d checks=%d pending=%d q=%d' % (h, t.get('paths', 0), t.get('checks', 0), p, t.get('q_queries', 0)), flush=True)
    known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'known']
    cfg['new'] = lambda h, f: not any(k['harness'] == h and k['message'] == f['msg'] for k in known)
    res = run.explore_all(mod, hs, cfg, opts, log)
    # undecided: left open by the time limit or the solver on top of what was decided; incon: nothing can be said about a harness
    viol, incon, knownhit, undecided = [], [], [], []
    tot = dict(paths=0, steps=0, checks=0, forks=0, witnessed=0, queries=0, solver=0.0, mism=0, unknown=0, infeasible=0)
    perh = {}
    samples = []
    cov = {}
    for h in hs:
        r = res.get(h) or {}
        if r.get('error'):
            incon.append('%s: %s' % (h, r['error']))
        for f in r.get('fails', []):
            k = [k for k in known if k['harness'] == h and k['message'] == f['msg']]
            if f['ok'] and k:
                if k[0] not in knownhit:
                    knownhit.append(k[0])
            elif f['ok']:
                viol.append((h, f))
            else:
                undecided.append('%s: counterexample not reproduced natively: %s %s %s' % (h, f['msg'], run.show(f['inputs']), f['native'][:300]))
        for u in r.get('unresolved', [])[:3]:
            (undecided if r.get('decided') else incon).append('%s: %s' % (h, u))
        if r.get('left'):
            undecided.append('%s: %d path prefixes left unexplored at the time limit' % (h, r['left']))
        if not r.get('withcheck') and not r.get('left') and not any(k['harness'] == h for k in known):
            incon.append('%s: no path reached an assertion' % h)
        for k, kk in (('paths', 'paths'), ('steps', 'steps'), ('checks', 'checks'), ('forks', 'forks'), ('witnessed', 'witnessed'),
                      ('queries', 'q_queries'), ('solver', 'q_time'), ('unknown', 'unknown'), ('infeasible', 'infeasible')):
            tot[k] += r.get(kk, 0)
        tot['mism'] += len(r.get('mismatch', []))
        for s, t in r.get('mismatch', [])[:2]:
            print('note: %s: path witness differs natively: %s -> %s' % (h, s, t))
        for s in r.get('samples', [])[:2]:
            samples.append('%s(%s) passes natively, as on its symbolic path' % (h, s))
        perh[h] = dict(paths=r.get('paths', 0), assertions=r.get('checks', 0), queries=r.get('q_queries', 0), unsat=r.get('q_unsat', 0),
                       sat=r.get('q_sat', 0), unknown=r.get('q_unknown', 0), solver_s=round(r.get('q_time', 0), 2), slowest_query_s=round(r.get('q_slow', 0), 2),
                       wall_s=round(r.get('wall', 0), 1), native_witnesses=r.get('witnessed', 0))
        for n, v in (r.get('cov') or {}).items():
            y = cov.get(n)
            cov[n] = v if y is None else bytes(p | q for p, q in zip(v, y))
        if verbose:
            print(h, perh[h], 'fails', len(r.get('fails', [])), flush=True)
    if (incon or undecided) and not viol:
        drv2 = native.Driver(drv, so)
        for h in hs:
            if any(x.startswith(h + ':') for x in incon + undecided) and not any(k['harness'] == h for k in known):
                for seed2 in range(1, 200):
                    v, t = drv2.run(h, 1 if tier == 'thorough' else 0, [], probe=seed2)
                    if v == 'fail':
                        viol.append((h, dict(msg='undecided; the real code fails', inputs=[], native=t, ok=True, probe=seed2)))
                        break
    fe = encoded(mod, cov, ll)
    if not fe and not only:
        incon.append('no function of /repo was executed')
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=tot['paths'] + tot['forks'], transitions=tot['steps'],
                            traces_validated_against_impl=tot['witnessed'],
                            samples=samples[:12] or ['none'],
                            exhaustive=not incon and not viol and not undecided,
                            undecided=undecided[:20],
                            explanation='states = symbolic paths plus decision points on them; transitions = LLVM instructions executed symbolically',
                            paths=tot['paths'], assertions_decided=tot['checks'],
                            solver_queries=tot['queries'], solver_seconds=round(tot['solver'], 2),
                            infeasible_paths=tot['infeasible'], undecided_branches_kept=tot['unknown'],
                            witness_mismatches=tot['mism'],
                            functions_encoded=fe, bounds=meta.get('bounds', ''), outside_the_bounds=meta.get('outside', ''),
                            harnesses=perh, build_seconds=round(tb, 1), known_findings_seen=[k['id'] for k in knownhit]),
              assumptions=meta.get('assumptions', []) + COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 1), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for k in knownhit:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s %s: %d harnesses, %d paths, %d assertions, %d queries (%.1f s in the solver), %d native witnesses, %.1f s' % (
        pid, tier, len(hs), tot['paths'], tot['checks'], tot['queries'], tot['solver'], tot['witnessed'], time.time() - t0))
    if viol:
        h, f = viol[0]
        path = os.path.join(VERIF, 'evidence', '%s-counterexample.json' % pid)
        with open(path, 'w') as o:
            json.dump(dict(property=pid, tier=tier, harness=h, message=f['msg'], inputs=[[k, (v if k != 'f' else repr(v))] for k, v in f['inputs']],
                           native=f['native'], want=f.get('want'), probe=f.get('probe'), replay='%s/engine/replay.py %s' % (VERIF, path),
                           others=[dict(harness=x, message=y['msg'], inputs=run.show(y['inputs'])) for x, y in viol[1:10]]), o, indent=1)
        for x, y in viol[:6]:
            print('  %s: %s  inputs: %s  native: %s' % (x, y['msg'], run.show(y['inputs']), y['native'][:300]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if incon:
        for i in incon[:12]:
            print('INCONCLUSIVE %s' % i)
        return 2
    for i in undecided[:12]:
        print('UNDECIDED %s' % i)
    return 0


COMMON_ASSUMPTIONS = [
    'real-mode harnesses: f64 arithmetic is exact real arithmetic (rounding, overflow and NaN are outside the claim); exp, cos, ln are '
    'uninterpreted functions with basic axioms; harnesses with _fp_ in their name use bit-precise IEEE doubles instead',
    'HashMap iteration order: the order std produces for fixed SipHash keys',
    'allocation never fails; panic messages are not formatted, and an integer that is symbolic leaves no digits in an error message',
    'rustc lowers the source to LLVM IR correctly; the IR is the optimised build with overflow checks and debug assertions on',
]

if __name__ == '__main__':
    main()
