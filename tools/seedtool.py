#!/opt/venv/bin/python
"""seedtool.py <seeds.py> [id ...]: build, confirm and try planted changes (development aid, run by hand).

seeds.py defines SEEDS: {id: dict(property, file, edits=[(old, new)], needs, breaks, demo='python source')}.
For each: scratch copy of /repo under /tmp/sd, edit, diff, demo on /repo and on the copy, stable tests on the copy,
the property's check on the copy; the confirmed ones are stored in /verif/seeded/<id>/.
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = '/verif'
HDR = '#!/bin/bash\ncd "$(pwd)" && exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, env=e, cwd=cwd, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def one(sid, s, tests=True, checks=None):
    d = f"/tmp/sd/{sid}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    files = s['files'] if 'files' in s else [(s['file'], s['edits'])]
    for fn, edits in files:
        p = os.path.join(d, 'src/dliswriter', fn)
        t = open(p).read()
        for old, new in edits:
            if t.count(old) != 1:
                return sid, f"edit does not match once ({t.count(old)}): {old[:60]!r}"
            t = t.replace(old, new)
        open(p, 'w').write(t)
    rc, diff = sh('git diff', cwd=d)
    env = {'PYTHONPATH': d + '/src'}
    rep = []
    demo_dir = tempfile.mkdtemp(prefix='dm_')
    open(demo_dir + '/demo.py', 'w').write(s['demo'])
    open(demo_dir + '/demo.sh', 'w').write(HDR)
    a, o1 = sh(f"bash {demo_dir}/demo.sh", cwd='/repo', timeout=300)
    b, o2 = sh(f"bash {demo_dir}/demo.sh", cwd=d, env=env, timeout=300)
    rep.append(f"demo {a}/{b}")
    if a != 0 or b == 0:
        rep.append('DEMO BAD: ' + (o1 if a else o2)[-600:])
    ok = a == 0 and b != 0
    if tests and ok:
        os.makedirs(d + '/src/tests/outputs', exist_ok=True)
        rc, out = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -p no:xdist --timeout=300 src/tests 2>&1 | tail -8', cwd=d,
                     env=dict(env, GLIBC_TUNABLES='glibc.malloc.hugetlb=1', PYTHONHASHSEED='0'), timeout=900)
        good = ' failed' not in out and 'error' not in out.lower() and ' passed' in out
        rep.append('tests ok' if good else 'TESTS FAIL: ' + out[-500:])
        ok = ok and good
    if ok:
        t = f"{VERIF}/seeded/{sid}"
        os.makedirs(t, exist_ok=True)
        open(t + '/patch.diff', 'w').write(diff)
        shutil.copy(demo_dir + '/demo.py', t)
        shutil.copy(demo_dir + '/demo.sh', t)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(t + '/meta.json', 'w'), indent=1)
    for c in (checks or [s['property']]):
        if ok:
            ev = tempfile.mkdtemp(prefix='ev_')
            rc, out = sh(f"/opt/venv/bin/python checks/run.py {c}", cwd=VERIF, env=dict(env, VERIF_REPO=d, VERIF_SEED='1', VERIF_EVID=ev), timeout=900)
            shutil.rmtree(ev, ignore_errors=True)
            rep.append(f"check {c} rc={rc} " + ('CAUGHT' if rc == 1 else 'MISSED') + ' ' + ' | '.join(out.strip().split('\n')[-4:])[:700])
    shutil.rmtree(demo_dir, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    return sid, '\n    '.join(rep)


def main():
    args = sys.argv[1:]
    notests = '--no-tests' in args
    args = [a for a in args if not a.startswith('--')]
    spec = importlib.util.spec_from_file_location('seeds', args[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    todo = {k: v for k, v in m.SEEDS.items() if len(args) == 1 or k in args[1:]}
    with cf.ThreadPoolExecutor(3) as ex:
        for f in cf.as_completed([ex.submit(one, k, v, not notests) for k, v in todo.items()]):
            sid, r = f.result()
            print(f"{sid}: {r}", flush=True)


if __name__ == '__main__':
    main()
