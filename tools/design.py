#!/usr/bin/env python3
"""writes DESIGN.md from DESIGN.in.md, the tables, the seeds and the last evidence"""
import json, os, glob, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R + '/engine', R + '/contracts']
import props
src = open(R + '/tools/DESIGN.in.md').read()
man = json.load(open(R + '/MANIFEST.json'))
titles = {}
for l in open(R + '/properties.jsonl'):
    d = json.loads(l)
    titles[d['id']] = d['title']
prose = {}
cur = None
for l in open(R + '/tools/design_props.md'):
    m = re.match(r'^## (\w+)', l)
    if m:
        cur = m.group(1)
        prose[cur] = ''
    else:
        prose[cur] += l
out = ''
cost = '| property | functions proved | obligations | checked by execution only | quick check wall time |\n|---|---|---|---|---|\n'
for c in man['checks']:
    i = c['property']
    p = props.PROPS[i]
    n = sum(len(f) for _, f in p['proved'])
    ev = {}
    try:
        ev = json.load(open(R + '/evidence/%s.json' % i))
    except Exception:
        pass
    out += '### %s: %s\n\n%s' % (i, titles[i], prose[i].strip() + '\n\n')
    out += 'Layer %s; %d functions under contract; executed only: %s; harness `native/%s.cc`.\n\n' % (
        ', '.join(sorted({a for a, _ in p['proved']})), n, ', '.join(p['bounded']) or 'nothing', p['native'])
    ob = ev.get('coverage', {}).get('obligations_total') or ev.get('coverage', {}).get('obligations') or ''
    if isinstance(ob, (dict, list)):
        ob = len(ob)
    cost += '| %s | %d | %s | %s | %s s |\n' % (i, n, ob, ', '.join(p['bounded']) or '-', round(ev.get('wall_s', 0) or 0) or '')
na = ''.join('* **%s** (%s): %s\n' % (d['property'], titles[d['property']], d['reason']) for d in man['not_applicable']) or 'none\n'
fixes = ''.join('* %s `%s`: %s\n' % m for m in re.findall(r'^fixed: property=(\w+) (\w+) (.*)$', open(R + '/known_findings.txt').read(), re.M))
known = re.findall(r'^known: property=(\w+) (.*)$', open(R + '/known_findings.txt').read(), re.M)
if known:
    fixes += '\nRecorded, not repaired:\n' + ''.join('* %s: %s\n' % k for k in known)
seeds = '| change | property (caught by this check) | needs | breaks |\n|---|---|---|---|\n'
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    d = json.load(open(f))
    seeds += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), d['property'], d['needs'].replace('|', '/'), d['what_it_breaks'].replace('|', '/'))
for k, v in dict(PROPS=out, NA=na, FIXES=fixes, SEEDS=seeds, COST=cost, NFIX=str(fixes.count('* '))).items():
    src = src.replace('@@%s@@' % k, v.rstrip('\n'))
assert '@@' not in src
open(R + '/DESIGN.md', 'w').write(src)
print(len(src))
