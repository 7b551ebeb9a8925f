"""Explore the harnesses of one property with a pool of workers."""
import multiprocessing as mp
import os
import queue
import signal
import sys
import time
import traceback
import codegen
import explore
import fl
import llparse
import native
import runtime as R
import smt
import terms


def isfp(h):
    return '_fp_' in h


class Worker:
    def __init__(self, mod, cfg):
        self.mod = mod
        self.cfg = cfg
        self.gens = {}
        self.drv = native.Driver(cfg['driver'], cfg['lib'])
        self.cov = {}
        if os.environ.get('ENGINE_STACK'):
            import faulthandler
            faulthandler.dump_traceback_later(float(os.environ['ENGINE_STACK']), repeat=True)

    def gen(self, mode):
        g = self.gens.get(mode)
        if g is None:
            fl.MODE[0] = mode
            g = self.gens[mode] = codegen.Gen(self.mod)
        fl.MODE[0] = mode
        R.LOADER[0] = g.load_object
        return g

    def task(self, h, frontier, opts, deadline, budget_s, budget_n):
        mode = 'fp' if isfp(h) else 'real'
        g = self.gen(mode)
        stack = list(frontier)
        res = dict(h=h, paths=0, forks=0, steps=0, checks=0, fails=[], unresolved=[], infeasible=0, witnessed=0, mismatch=[],
                   unknown=0, probed=0, samples=[], withcheck=0, decided=0)
        t0 = time.time()
        smt.STATS['slow'] = 0.0
        s0 = dict(smt.STATS)
        smt.DEADLINE[0] = deadline + 20
        tier = 1 if self.cfg['tier'] == 'thorough' else 0
        while stack and res['paths'] < budget_n and time.time() - t0 < budget_s and time.time() < deadline:
            prefix, model = stack.pop()
            p, status = explore.run_path(g, h, prefix, model, tier, opts)
            res['paths'] += 1
            res['forks'] += len(p.trace) - len(prefix)
            res['steps'] += R.S[0]
            res['checks'] += p.checks
            res['unknown'] += p.unknowns
            stack.extend(p.alts)
            if status == 'late':
                res['left'] = res.get('left', 0) + 1
            if status == 'infeasible':
                res['infeasible'] += 1
            if p.checks and status in ('ok', 'fail'):
                res['withcheck'] += 1
                if not p.unresolved:
                    res['decided'] += 1
            for msg, cands in p.fails:
                res['fails'].append(self.confirm(h, tier, msg, cands))
            if status == 'unsupported' and res['probed'] < 40:
                f = self.probe(h, tier, p, res)
                if f:
                    res['fails'].append(f)
            for u in p.unresolved:
                if len(res['unresolved']) < 5:
                    res['unresolved'].append(u)
            if status == 'ok' and p.model is not None and self.cfg['witness'] and res['witnessed'] < 6:
                self.witness(h, tier, p, res)
            if terms.COUNT[0] > self.cfg.get('maxterms', 3000000):
                res['recycle'] = True
                break
            if enough(res, 3):
                break
        for k in smt.STATS:
            res['q_' + k] = smt.STATS[k] - s0[k]
        res['frontier'] = stack
        res['cov'] = {n: bytes(v) for n, v in g.hit.items() if any(v)}
        return res

    def witness(self, h, tier, p, res):
        vals = p.tolist(p.model)
        for k, v in p.inputs:
            if k == 'f':
                x = p.model.get(v)
                if x is None or (not fl.isfp() and fl.Fraction(float(x)) != x):
                    return
        v, t = self.drv.run(h, tier, vals)
        if v == 'pass':
            res['witnessed'] += 1
            if len(res['samples']) < 2:
                res['samples'].append(show(vals))
        elif v == 'fail':
            res['mismatch'].append((show(vals), t))

    def probe(self, h, tier, p, res):
        """a path the engine cannot encode: does the real code fail on it?"""
        fl.MODE[0] = 'fp' if isfp(h) else 'real'
        cands = p.candidates(lambda m: True, p.model or {})
        for i, c in enumerate((cands * 8)[:24]):
            res['probed'] += 1
            v, t = self.drv.run(h, tier, c, probe=i + 1)
            if v == 'fail':
                return dict(msg=p.unresolved[-1], inputs=list(c), native=t, ok=True, probe=i + 1)

    def confirm(self, h, tier, msg, cands):
        """replay candidate inputs until one fails natively"""
        tried = []
        seen = set()
        for c in cands[:16]:
            key = repr(c)
            if key in seen:
                continue
            seen.add(key)
            v, t = self.drv.run(h, tier, c)
            if v == 'fail':
                return dict(msg=msg, inputs=list(c), native=t, ok=True)
            tried.append((v, t))
        # near the counterexample, with one input out of the ordinary
        for c in list(near(cands[:4]))[:60]:
            v, t = self.drv.run(h, tier, c)
            if v == 'fail':
                return dict(msg=msg, inputs=list(c), native=t, ok=True)
        for c in cands[:16]:
            d = getattr(c, 'd', None)
            if d:
                v, t = self.drv.run(h, tier, c, d)
                if v == 'fail' and t.startswith('FAIL'):
                    return dict(msg=msg, inputs=list(c), native=t, ok=True, want=d)
        if msg.startswith(('memory', 'ub', 'abort')) and cands:
            for c in cands[:3]:
                v, t = self.drv.memcheck(h, tier, c)
                if v == 'fail':
                    return dict(msg=msg, inputs=c, native='valgrind: ' + t, ok=True, memcheck=True)
        return dict(msg=msg, inputs=cands[-1] if cands else [], native=repr(tried[:3]), ok=False)


def near(cands):
    """variations of counterexamples that the real code does not show: one number takes the size of the largest, or is far larger or smaller"""
    for c in cands:
        at = [i for i, (k, v) in enumerate(c) if k == 'f' and v == v and abs(v) != float('inf')]
        big = max([abs(c[i][1]) for i in at], default=0.0)
        for i in at:
            x = c[i][1]
            for y in (big if x >= 0 else -big, x * 1e8, x * 1e3, x * 1e-4):
                if y != x and abs(y) < 1e300:
                    yield list(c[:i]) + [('f', y)] + list(c[i + 1:])


def enough(r, n):
    """n confirmed failures, or a hundred that the real code does not show"""
    f = r.get('fails', [])
    return len(f) >= n and (len(f) >= 100 or sum(1 for x in f if x['ok']) >= n)


def show(vals):
    out = []
    for k, v in vals:
        out.append(('%g' % v) if k == 'f' else ('#%d' % v) if k == 'c' else str(v))
    return ' '.join(out)


def loop(mod, cfg, tq, rq):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    w = Worker(mod, cfg)
    while True:
        t = tq.get()
        if t is None:
            break
        try:
            r = w.task(*t)
        except BaseException as e:
            r = dict(h=t[0], error='%r\n%s' % (e, traceback.format_exc()), frontier=[])
        rq.put((os.getpid(), r))
        if r.get('recycle'):
            break
    rq.put((os.getpid(), None))


def explore_all(mod, harnesses, cfg, opts_of, log=None):
    """-> {harness: merged result}"""
    n = cfg['workers']
    ctx = mp.get_context('fork')
    tq, rq = ctx.Queue(), ctx.Queue()
    procs = {}

    def spawn():
        p = ctx.Process(target=loop, args=(mod, cfg, tq, rq), daemon=True)
        p.start()
        procs[p.pid] = p

    for _ in range(n):
        spawn()
    total = {h: None for h in harnesses}
    pending = {h: 0 for h in harnesses}
    backlog = [(h, [([], {})]) for h in harnesses]
    inflight = 0
    dead = cfg['deadline']
    started = {}
    tend = {}
    while True:
        now = time.time()
        while backlog and inflight < n * 2 and now < dead:
            h, fr = backlog.pop(0)
            started.setdefault(h, now)
            tq.put((h, fr, opts_of(h), dead, cfg.get('slice_s', 1.0), 400))
            pending[h] += 1
            inflight += 1
        if not inflight:
            break
        try:
            pid, r = rq.get(timeout=2.0)
        except queue.Empty:
            gone = [p for p in procs.values() if not p.is_alive()]
            if len(gone) == len(procs) or time.time() > dead + 90:
                for h in harnesses:
                    if pending[h]:
                        t = total[h] = total[h] or dict(h=h)
                        t['error'] = 'worker lost or timed out'
                break
            # a worker killed by the memory guard loses its task
            for p in gone:
                if p.exitcode not in (0, None):
                    procs.pop(p.pid)
                    spawn()
            continue
        if r is None:
            procs.pop(pid, None)
            if backlog or inflight:
                spawn()
            continue
        inflight -= 1
        h = r['h']
        pending[h] -= 1
        fr = r.pop('frontier')
        total[h] = merge(total[h], r)
        tend[h] = time.time()
        new = cfg.get('new')
        if new and any(f['ok'] and new(h, f) for f in r.get('fails', [])):
            dead = min(dead, time.time() + cfg.get('grace_s', 30))
        stopit = enough(total[h], 6) or total[h]['paths'] > opts_of(h).get('max_paths', 10 ** 9)
        if fr and (stopit or time.time() >= dead):
            total[h]['left'] = total[h].get('left', 0) + len(fr)
        elif fr:
            k = max(1, min(len(fr), n))
            idle = inflight < n
            parts = [fr[i::k] for i in range(k)] if idle and len(fr) > 1 else [fr]
            for p_ in parts:
                backlog.append((h, p_))
        if log:
            log(h, total[h], pending[h])
    for h, fr in backlog:
        t = total[h] = total[h] or dict(h=h, paths=0)
        t['left'] = t.get('left', 0) + len(fr)
    for _ in procs:
        tq.put(None)
    t0 = time.time()
    for p in list(procs.values()):
        p.join(timeout=max(0.1, 3 - (time.time() - t0)))
        if p.is_alive():
            p.terminate()
    for h in harnesses:
        if total[h] is not None:
            total[h]['wall'] = tend.get(h, 0) - started.get(h, 0)
    return total


def merge(a, b):
    if a is None:
        b = dict(b)
        return b
    for k, v in b.items():
        if k == 'h':
            continue
        if k not in a:
            a[k] = v
        elif k == 'q_slow':
            a[k] = max(a[k], v)
        elif isinstance(v, bool):
            a[k] = a[k] or v
        elif isinstance(v, (int, float)):
            a[k] += v
        elif isinstance(v, list):
            a[k] = a[k] + v
        elif isinstance(v, dict):
            for n, x in v.items():
                y = a[k].get(n)
                a[k][n] = x if y is None else bytes(p | q for p, q in zip(x, y)) if x != y else x
    return a
