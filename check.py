#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property>: verify every function under contract for the property from /repo's current source.

exit 0: every obligation discharged (or only listed known findings failed); exit 1 with a VIOLATION line: an obligation
failed.  See DESIGN.md for what a unit is and what the verifier trusts."""
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, 'specs'))
REPO = os.environ.get('IRVC_REPO', '/repo')
JOBS = int(os.environ.get('IRVC_JOBS', '8'))


def worker(modname, index, conn):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    import importlib
    from irvc.unit import run_unit
    try:
        u = importlib.import_module(modname).units()[index]
        r = run_unit(u)
        ob = {}
        for k, v in r.get('obligations', {}).items():
            d = v[3]
            if d is not None:
                d = {a: (str(b)[:2500] if not isinstance(b, (dict, list)) else b) for a, b in d.items()}
            ob[k] = [v[0], v[1], v[2], d]
        r['obligations'] = ob
        txt = json.dumps(r, default=str)
    except BaseException as e:    # noqa
        txt = json.dumps({'unit': '?', 'status': 'internal', 'errors': ['%s: %s' % (type(e).__name__, e)], 'obligations': {}})
    conn.send_bytes(txt.encode())
    conn.close()


def run_units(todo, limit):
    """todo: list of (modname, index, unit).  Returns results in order."""
    res = [None] * len(todo)
    queue = sorted(range(len(todo)), key=lambda i: -todo[i][2].budget)
    running = {}
    t0 = time.time()
    ctx = mp.get_context('fork')
    while queue or running:
        while queue and len(running) < JOBS:
            i = queue.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=worker, args=(todo[i][0], todo[i][1], b))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        for i in list(running):
            p, a, ts = running[i]
            done = False
            try:
                if a.poll(0.02):
                    res[i] = json.loads(a.recv_bytes().decode())
                    done = True
            except EOFError:
                res[i] = {'status': 'internal', 'errors': ['the verifier process ended without a result'], 'obligations': {}}
                done = True
            u = todo[i][2]
            if not done and (time.time() - ts > u.budget + 45 or time.time() - t0 > limit):
                p.kill()
                res[i] = {'status': 'timeout', 'errors': ['time budget of the unit used up'], 'obligations': {}}
                done = True
            if done:
                res[i].setdefault('wall', round(time.time() - ts, 2))
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
                del running[i]
    for i, r in enumerate(res):
        r['unit'] = todo[i][2].name
        r['fn'] = todo[i][2].fn
    return res


def known_findings(pid):
    out = []
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r'finding: property=(\S+) unit=/(.*?)/ obligation=/(.*?)/ :: (.*)', ln.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return out


def replay(pid, cfg, seed, secs, scratch):
    """run the real code against the specification function of the property; returns (status, text, cmd)"""
    if not cfg.get('driver'):
        return 'none', '', ''
    exe = os.path.join(scratch, 'driver')
    src = os.path.join(ROOT, 'replay', cfg['driver'])
    common = ['g++', '-std=c++20', '-O1', '-g', '-w', '-pthread', '-I' + REPO + '/include', '-I' + ROOT + '/specs/shim', '-fno-access-control',
              '-D_GLIBCXX_ASSERTIONS', '-include', ROOT + '/specs/prelude.hpp'] + cfg.get('driver_flags', [])
    builds = [[common + ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', src, '-o', exe]]]
    if pid in ('C23', 'C24'):
        # once more with every access of memory as a point where the thread may lose the processor
        obj = os.path.join(scratch, 'driver.o')
        builds.append([common + ['-DVP_SCHED', '-fsanitize=thread', '-c', src, '-o', obj],
                       ['g++', '-O1', '-pthread', obj, os.path.join(ROOT, 'replay', 'sched.cpp'), '-o', exe]])
        secs = max(secs * 2 // 3, 1)
    for cmds in builds:
        for cmd in cmds:
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode:
                return 'nocompile', p.stderr[:3000], ' '.join(cmd)
        full = ' && '.join(' '.join(c) for c in cmds + [[exe, pid, str(seed), str(secs)]])
        try:
            q = subprocess.run([exe, pid, str(seed), str(secs)], capture_output=True, text=True, timeout=secs + 60, errors='replace', cwd=scratch)
        except subprocess.TimeoutExpired as e:
            return 'fail', 'OBSERVED: the replay did not return\n' + str(e.stdout or '')[:2000], full
        if q.returncode or 'CASES:' not in q.stdout:
            return 'fail', q.stdout[:6000] + q.stderr[:6000], full
    return 'pass', q.stdout.strip()[-200:], full


def main():
    pid = sys.argv[1]
    import catalog
    cfg = catalog.PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='irvc.')
    os.environ['IRVC_CACHE'] = scratch
    if tier == 'thorough':
        os.environ['IRVC_SECOND'] = '1'
    try:
        rc = go(pid, cfg, seed, tier, t0, scratch, catalog)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def go(pid, cfg, seed, tier, t0, scratch, catalog):
    import importlib
    todo = []
    for mn in cfg['modules']:
        us = importlib.import_module(mn).units()
        for i, u in enumerate(us):
            if pid in u.props and (tier == 'thorough' or not getattr(u, 'thorough_only', False)):
                todo.append((mn, i, u))
    limit = 600 if tier == 'quick' else 3000
    res = run_units(todo, limit)
    known = known_findings(pid)
    nob = ndis = 0
    bad, undecided, found, samples, per = [], [], [], [], []
    trusted, assumptions = set(), set(cfg.get('assumptions', ()))
    solver = 0.0
    for r, (_, _, u) in zip(res, todo):
        for k, v in list(r['obligations'].items()):
            if not u.decides(k, pid):
                # decides other properties; if it fails, what follows on its path is not proved
                if (v[1] or v[2]) and r['status'] in ('proved', 'failed'):
                    r['status'] = 'other'
                    r['errors'] = list(r.get('errors', ())) + ['an obligation of another property failed: ' + k]
                del r['obligations'][k]
                continue
            nob += v[0] + v[1] + v[2]
            ndis += v[0]
            if v[1] or v[2]:
                kf = [x for x in known if x[0].search(r['unit']) and x[1].search(k)]
                if kf:
                    found.append(kf[0][2])
                else:
                    bad.append((r, k, v))
        if r['status'] not in ('proved', 'failed'):
            undecided.append(r)
        trusted.update(r.get('trusted', ()))
        solver += r.get('solver_s') or 0
        per.append({'unit': r['unit'], 'entry': r['fn'], 'status': r['status'], 'obligations': sum(sum(v[:3]) for v in r['obligations'].values()),
                    'named_obligations': len(r['obligations']), 'discharged': sum(v[0] for v in r['obligations'].values()),
                    'solver_s': r.get('solver_s'), 'wall_s': r.get('wall'), 'queries': r.get('queries'), 'outcomes': r.get('outcomes'),
                    'loops': r.get('loops'), 'functions_executed': r.get('stepped'), 'second_backend': r.get('second'), 'errors': [e[:600] for e in r.get('errors', ())],
                    'bounded': getattr(todo[[x[2].name for x in todo].index(r['unit'])][2], 'bounded', None)})
    viol = 0
    rc = 0
    rep = None
    if bad or undecided:
        rep = replay(pid, cfg, seed, 20 if tier == 'quick' else 120, scratch)
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    if bad or (undecided and rep[0] == 'fail'):
        viol = 1
        rc = 1
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s.txt' % pid)
        with open(path, 'w') as f:
            f.write('property %s: %s\n\n' % (pid, cfg['title']))
            for r, k, v in bad:
                d = v[3] or {}
                f.write('FAILED OBLIGATION  %s :: %s\n  entry point %s, %d path(s) refuted, %d undecided\n  solver: %s\n  counter-model: %s\n  trail: %s\n  goal: %s\n\n' % (
                    r['unit'], k, r['fn'], v[1], v[2], d.get('status'), json.dumps(d.get('model'), default=str)[:1500], d.get('trail'), (d.get('goal') or '')[:1200]))
            for r in undecided:
                f.write('UNDECIDED  %s: %s\n\n' % (r['unit'], '; '.join(r['errors'])[:1500]))
            f.write('REPLAY ON THE REAL CODE: %s\n%s\ncommand: %s\n' % rep)
        names = ['%s :: %s' % (r['unit'], k) for r, k, v in bad] or [r['unit'] for r in undecided]
        for n in names[:6]:
            print('failed obligation: ' + n)
        if rep[0] == 'fail':
            print(rep[1][:800])
        tail = '' if rep[0] == 'fail' else ' no-failing-input-found'
        print('VIOLATION property=%s replay=%s%s' % (pid, os.path.relpath(path, ROOT), tail))
    elif undecided:
        for r in undecided:
            print('UNDECIDED %s: %s' % (r['unit'], '; '.join(r['errors'])[:400]))
        if rep[0] == 'pass':
            print('bounded stand-in for the undecided functions: %s' % rep[1])
        else:
            print('replay driver: %s %s' % (rep[0], rep[1][:600]))
            rc = 2
    for w in dict.fromkeys(found):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    full = not undecided and not bad
    for k in list(per):
        assumptions.update(())
    cov = {'obligations': nob, 'discharged': ndis,
           'checker_cmd': 'python3-vt check.py %s' % pid,
           'trusted_base': catalog.TRUSTED + sorted(trusted) + list(cfg.get('trusted', ())),
           'units': per, 'functions_under_contract': len(per), 'proved_units': sum(1 for r in res if r['status'] == 'proved'),
           'solver_s': round(solver, 2), 'back_end': catalog.BACKEND, 'known_findings': list(dict.fromkeys(found))}
    if tier == 'thorough':
        tot = {}
        for x in per:
            for k, v in (x['second_backend'] or {}).items():
                tot[k] = tot.get(k, 0) + v
        cov['second_back_end'] = {'solver': 'cvc5', 'confirmed_unsat': tot.get('cvc5', 0), 'unknown': tot.get('cvc5_unknown', 0), 'disagrees': tot.get('cvc5_disagrees', 0)}
    level = cfg.get('level', 'proof')
    if not full:
        cov['explanation'] = 'not every obligation was discharged on this run: %d failed, %d functions undecided%s' % (
            len(bad), len(undecided), '; bounded stand-in by replay of the contract on random histories: ' + rep[1] if rep and rep[0] == 'pass' else '')
        if undecided and not bad:
            level = 'other'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': catalog.ASSUMPTIONS + sorted(assumptions), 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d units, %d proved, %d/%d obligations discharged, %.1f s' % (pid, len(per), cov['proved_units'], ndis, nob, time.time() - t0))
    return rc


if __name__ == '__main__':
    main()
