#!/usr/bin/env python3
"""writes DESIGN.md from design_head.md, design_tail.md, props.py, the planted bugs and the last quick evidence
(tools/coverage.json keeps what the evidence said, so that the document can be made without running anything)"""
import json, os, sys, glob
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
from design_notes import ORACLE, CAUGHT
cov = os.path.join(here, 'coverage.json')
c = json.load(open(cov)) if os.path.exists(cov) else {}
if len(sys.argv) > 1 and sys.argv[1] == 'refresh':
    for f in glob.glob(os.path.join(root, 'evidence', '*.json')):
        d = json.load(open(f))
        if d.get('tier') != 'quick':
            continue
        c[d['property']] = dict(wall=round(d['wall_s'], 1), h=[[h['harness'], h['about'], h['executions'], h['checked_steps'], h['exhaustive']]
                                                             for h in d['coverage']['harnesses']])
    json.dump(c, open(cov, 'w'), indent=0, sort_keys=True)
bugs = {}
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    bugs.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
out = [open(os.path.join(here, 'design_head.md')).read()]
out.append('## Properties\n\nPer property: the oracle, what the quick tier enumerates (with executions and comparisons, as of the last refresh, '
           'on 8 cores), what the existing tests cannot reach, and the planted bugs kept for it. The thorough tier widens the same '
           'bounds (longer histories, more places, finer steps) and is named where it differs in kind.\n')
for p in PROPS:
    i = p['id']
    out.append('### %s — %s\n\n%s\n' % (i, p['title'], p['statement']))
    out.append('*Oracle.* ' + ORACLE[i] + '\n')
    h = c.get(i)
    if h:
        out.append('*Enumerated* (quick, %s s%s):\n' % (h['wall'], '' if all(x[4] for x in h['h']) else ', not all exhaustively'))
        out.extend('* `%s`: %s (%s executions, %s comparisons)' % (n, a, f'{e:,}', f'{s:,}') for n, a, e, s, _ in h['h'])
        out.append('')
    out.append('*Beyond the tests.* ' + p['why'] + ' *Strength.* ' + p['note'] + '\n')
    if i in bugs:
        out.append('*Planted:* ' + '; '.join('`%s` (%s)' % (n, m['needs'].rstrip('.')) for n, m in bugs[i]) + '.\n')
out.append(open(os.path.join(here, 'design_tail.md')).read())
s = '\n'.join(out)
m = open(os.path.join(here, 'design_mutation.md')).read()
s = s.replace('@MUTATION@', m)
n = sum(len(b) for b in bugs.values())
s = s.replace('@BUGS@', str(n))
rows = []
for i in sorted(bugs):
    for b, m in bugs[i]:
        rows.append('| `%s` | %s | %s | %s |' % (b, i, m['what_it_breaks'].rstrip('.').replace('|', '/'), CAUGHT.get(b, 'at once')))
s = s.replace('@BUGTABLE@', '| bug | caught by | breaks | when |\n|---|---|---|---|\n' + '\n'.join(rows))
open(os.path.join(root, 'DESIGN.md'), 'w').write(s)
