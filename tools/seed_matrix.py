#!/usr/bin/env python3
"""runs the check of each planted bug's property against a scratch copy with the bug applied; writes tools/seed_matrix.json"""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(ROOT, 'tools', 'seed_matrix.json')
res = json.load(open(out)) if os.path.exists(out) else {}
for sid in sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    d = os.path.join(ROOT, 'seeded', sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='seedm.')
    try:
        shutil.copytree('/repo/include', tmp + '/include')
        subprocess.run(['git', 'apply', '-p1', os.path.join(d, 'patch.diff')], cwd=tmp, check=True)
        q = subprocess.run([os.path.join(ROOT, 'check.py'), meta['property']], capture_output=True, text=True, cwd=ROOT, env=dict(os.environ, IRVC_REPO=tmp))
    finally:
        shutil.rmtree(tmp)
    obl = re.findall(r'^failed obligation: (.*)$', q.stdout, re.M)
    v = re.search(r'^VIOLATION.*$', q.stdout, re.M)
    res[sid] = dict(property=meta['property'], rc=q.returncode, first=obl[0] if obl else '', input=bool(v) and 'no-failing-input-found' not in v.group(0))
    print(sid, res[sid], flush=True)
json.dump(res, open(out, 'w'), indent=1, sort_keys=True)
