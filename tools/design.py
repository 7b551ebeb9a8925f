#!/usr/bin/env python3
"""Write DESIGN.md: the hand-written part in design_head.md, then one section per
property from properties.jsonl, engine/bounds.json, the harness sources and the
results of the last trials (trials.json, quiet.json)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
bounds = json.load(open(V + '/engine/bounds.json'))
load = lambda p: json.load(open(p)) if os.path.exists(p) else {}
trials, quiet = load(V + '/tools/trials.json'), load(V + '/tools/quiet.json')
claimed = {c['property'] for c in man['checks']}
na = {c['property']: c['reason'] for c in man['not_applicable']}
bugs = {}
for d in sorted(glob.glob(V + '/seeded/*') + glob.glob(V + '/tools/plant/extra/*')):
    m = json.load(open(d + '/meta.json'))
    bugs.setdefault(m['property'], []).append((os.path.basename(d), m, '/extra/' in d))
COST = []
out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## The properties, one by one', '']
for p in props:
    i = p['id']
    out += ['### %s %s' % (i, p['title']), '', p['statement'], '']
    if i not in claimed:
        out += ['**Not applicable.** ' + na[i], '']; continue
    src = V + '/harness/src/%s.rs' % i.lower()
    text = open(src).read()
    hs = re.findall(r'fn (%s_\w+)' % i.lower(), text)
    out += ['- *Decided by* symbolic execution of the %d harnesses in `harness/src/%s.rs`: %s.' % (len(hs), i.lower(), ', '.join(h[4:] for h in hs)),
            '- *Code reached:* ' + ', '.join('`%s`' % f for f in p['anchors']['files']) + ' (and whatever of ndarray, hashbrown and spaces those call).',
            '- *Bounds:* ' + bounds[i]['bounds'] + '.',
            '- *Outside:* ' + bounds[i]['outside'] + '.',
            '- *Why tests cannot settle it:* ' + p['why_tests_cant'] + '.']
    e = load(V + '/evidence/%s.json' % i)
    if e.get('tier') == 'quick':
        c = e['coverage']
        COST.append((i, e['wall_s'], c['paths'], c['assertions_decided'], c['solver_queries'], c['solver_seconds']))
    bs = bugs.get(i, [])
    if bs:
        t = {b[0]: trials.get(b[0], [0, 'untried'])[1] for b in bs}
        out.append('- *Planted bugs caught:* ' + (', '.join('`%s`' % b[0] for b in bs if t[b[0]] == 'caught') or 'none') + '.')
        m = [b for b in bs if t[b[0]] == 'missed']
        if m: out.append('- *Planted bugs missed:* ' + '; '.join('`%s` (%s)' % (b[0], b[1]['needs']) for b in m) + '.')
        u = [b for b in bs if t[b[0]] == 'untried']
        if u: out.append('- *Planted bugs not tried since the last change:* ' + ', '.join('`%s`' % b[0] for b in u) + '.')
    q = {k.split()[0]: v for k, v in quiet.items() if k.split()[1] == i}
    if q:
        out.append('- *Behaviour-preserving edits it stays quiet on:* ' + ', '.join('`%s`%s' % (n, ' (in part undecided)' if q[n][1] else '') for n in sorted(q) if q[n][0] == 'quiet') + '.')
        loud = [n for n in sorted(q) if q[n][0] != 'quiet']
        if loud: out.append('- *Edits it is not quiet on:* ' + ', '.join('`%s`' % n for n in loud) + '.')
    out.append('')
if COST:
    out += ['## Cost', '', 'Quick tier, on 8 cores, as of the last full run:', '', '| property | seconds | paths | assertions | queries | solver seconds |', '|---|---|---|---|---|---|']
    out += ['| %s | %.0f | %d | %d | %d | %.0f |' % c for c in COST]
open(V + '/DESIGN.md', 'w').write('\n'.join(out).rstrip() + '\n')
