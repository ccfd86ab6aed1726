"""Fill DESIGN.md's generated sections from the check modules, props.py,
known-findings.json and seeded/ (run by hand after changes)."""
import glob, importlib, json, os, re, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/checks', V + '/engine']
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
na = {x['property']: x for x in man.get('not_applicable', [])}
out = []
extra = json.load(open(V + '/tools/design_extra.json')) if os.path.exists(V + '/tools/design_extra.json') else {}
for p in props:
    if p['id'] in na: continue
    m = importlib.import_module('c_' + p['id'])
    chk = [c for c in man['checks'] if c['property'] == p['id']][0]
    t = ['### %s %s' % (p['id'], p['title']), '', p['statement'], '', '*Decided by.* ' + m.EXPLANATION, '',
         '*Assumptions and bounds.* ' + '; '.join(m.ASSUMPTIONS) + '.']
    if p['id'] in extra: t += ['', extra[p['id']]]
    ev = V + '/evidence/%s.json' % p['id']
    if os.path.exists(ev):
        e = json.load(open(ev))
        t += ['', '*Last run.* %d obligations, %d partitions, %d functions, %.0f s.' % (
            e['coverage']['obligations'], e['coverage']['abstract_partitions'], e['coverage']['functions_analysed_count'], e['wall_s'])]
    out.append('\n'.join(t))
s = open(V + '/tools/DESIGN.in').read()
s = s.replace('@@PROPS@@', '\n\n'.join(out))
s = s.replace('@@NA@@', '\n'.join('* **%s** %s: %s' % (k, [p['title'] for p in props if p['id'] == k][0], v['reason']) for k, v in sorted(na.items())) or 'None.')
s = s.replace('@@FIXED@@', '\n'.join('* ' + f['what'].replace('fixed: property=', '') for f in json.load(open(V + '/known-findings.json'))))
rows = ['| id | property | needs | what it breaks | caught |', '|---|---|---|---|---|']
res = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json')); i = os.path.basename(d)
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks'], res.get(i, 'yes')))
s = s.replace('@@SEEDS@@', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(s)
