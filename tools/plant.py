#!/usr/bin/env python3
"""Plant a bug in a scratch copy, confirm it, and store it under seeded/.

usage: plant.py FILE.py   (FILE defines ID, PROPERTY, EDITS=[(path, old, new)], DEMO, NEEDS, BREAKS)

Confirms in a scratch copy of /repo (found through PYTHONPATH) that the change builds, that the stable tests
pass with it, that the demonstration passes without it and fails with it, and that it changes original lines.
"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID = ns['ID']
PY = '/opt/venv/bin/python'
work = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
copy = os.path.join(work, 'repo')
env = dict(os.environ, PYTHONPATH=copy + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
try:
    subprocess.run(['git', 'clone', '-q', '/repo', copy], check=True)
    base = '19351b6'
    for path, old, new in ns['EDITS']:
        p = os.path.join(copy, path)
        s = open(p, newline='').read()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert s.count(old) == 1, (path, s.count(old), old)
        a = s[:s.index(old)].count('\n') + 1
        b = a + max(old.count('\n') - (1 if old.endswith('\n') else 0), 0)
        bl = subprocess.run(['git', 'blame', '-s', '-l', '-L', '%d,%d' % (a, b), base + '..HEAD', '--', path], cwd=copy, capture_output=True, text=True).stdout
        mine = [l for l in bl.splitlines() if not l.startswith('^')]
        if mine:
            print('NOTE: lines of my own fixes in the edited range:', *mine, sep='\n  ')
        open(p, 'w', newline='').write(s.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=copy, capture_output=True, check=True).stdout
    demo = ns['DEMO']
    def run_demo(path):
        d = os.path.join(work, 'demo'); os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(demo)
        r = subprocess.run([PY, d + '/demo.py'], env=dict(env, PYTHONPATH=path + '/src'), cwd=path, capture_output=True, text=True, timeout=300)
        return r
    r = run_demo('/repo')
    assert r.returncode == 0, 'demo fails on the unchanged tree\n' + r.stdout[-500:] + r.stderr[-2000:]
    r = run_demo(copy)
    assert r.returncode != 0, 'demo passes with the change\n' + r.stdout[-2000:]
    print('demo with change:', (r.stdout + r.stderr).strip().splitlines()[-1])
    assert subprocess.run([PY, '-m', 'compileall', '-q', 'src'], cwd=copy, env=dict(env, PYTHONPYCACHEPREFIX=work + '/pyc')).returncode == 0
    r = subprocess.run([PY, '-m', 'pytest', '-q', '-n', '8', '-p', 'no:cacheprovider', '--timeout=300', '-o', 'junit_family=xunit2', '--junitxml=' + work + '/junit.xml'],
                       cwd=copy, env=env, capture_output=True, text=True)
    print(r.stdout.strip().splitlines()[-1])
    chk = subprocess.run([PY, '-c', 'import CTL; print(CTL.__file__)'], cwd=copy, env=env, capture_output=True, text=True).stdout
    assert copy in chk, chk
    res = work + '/res.json'
    subprocess.run([PY, '/opt/vp/results.py', res, 'junit:' + work + '/junit.xml'], check=True, stdout=subprocess.DEVNULL)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    d = json.load(open(res))
    passed = set(d.get('passed', d.get('pass', [])))
    missing = sorted(stable - passed)
    assert not missing, 'stable tests fail: %s' % missing
    out = os.path.join('/verif/seeded', ID)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + '/patch.diff', 'wb').write(diff)
    open(out + '/demo.py', 'w').write(demo)
    open(out + '/demo.sh', 'w').write('#!/bin/bash\n# Run with cwd /repo. Exit 0 where the property holds.\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    print('PLANTED', ID)
finally:
    shutil.rmtree(work)
