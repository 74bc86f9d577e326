#!/usr/bin/env python3
"""fills the generated tables of DESIGN.md (between <!-- name --> markers) from the catalog, the units and the seed results"""
import glob, importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in (ROOT, os.path.join(ROOT, 'specs')):
    sys.path.insert(0, p)
import catalog

def esc(s):
    return s.replace('|', '\\|').replace('\n', ' ')

props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
rows = ['| id | property | units | instances under contract |', '|----|----------|-------|--------------------------|']
for p in props:
    c = catalog.PROPS.get(p['id'])
    if not c:
        continue
    names = []
    for mn in c['modules']:
        names += [u.name for u in importlib.import_module(mn).units() if p['id'] in u.props]
    # without template arguments and cases
    short = []
    for n in names:
        s = re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', n))
        s = re.sub(r'[\[(,].*$', '', re.sub(r' (worker )?\d+$', '', s)).strip()
        if s not in short:
            short.append(s)
    rows.append('| %s | %s | %d | %s |' % (p['id'], esc(p['title']), len(names), esc('; '.join(short[:24]) + ('; ...' if len(short) > 24 else ''))))
table = '\n'.join(rows)
na = '\n'.join('* **%s** (%s): %s' % (p['id'], p['title'], catalog.NOT_APPLICABLE[p['id']]) for p in props if p['id'] not in catalog.PROPS)
mx = os.path.join(ROOT, 'tools', 'seed_matrix.json')
mx = json.load(open(mx)) if os.path.exists(mx) else {}
rows = ['| bug | property | what it breaks | caught by | failing input |', '|-----|----------|----------------|-----------|---------------|']
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*'))):
    i = os.path.basename(d)
    m = json.load(open(os.path.join(d, 'meta.json')))
    r = mx.get(i, {})
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], esc(m['what_it_breaks']), esc(r.get('first', '')) if r.get('rc') == 1 else 'MISSED' if r else 'not run',
                                              'yes' if r.get('input') else 'no'))
seeded = '\n'.join(rows)
path = os.path.join(ROOT, 'DESIGN.md')
s = open(path).read()
for name, text in (('table', table), ('not applicable', na), ('seeded', seeded)):
    a, b = '<!-- %s -->' % name, '<!-- end %s -->' % name
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + '\n' + text + '\n' + s[j:]
open(path, 'w').write(s)
