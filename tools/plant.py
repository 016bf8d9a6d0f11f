"""Creates and confirms one planted bug: plant.py SEED.py

SEED.py defines id, property, edits=[(file, old, new)], needs, breaks, demo (text).
The tree is copied to a scratch directory, patched, tested; /repo is untouched.
"""
import sys, os, json, shutil, subprocess, tempfile, pathlib
ns = {}
exec(open(sys.argv[1]).read(), ns)
root = pathlib.Path(__file__).resolve().parents[1]
out = root / 'seeded' / ns['id']
work = pathlib.Path(tempfile.mkdtemp(prefix='plant_'))
wm = work / 'wm'
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', JAX_PLATFORMS='cpu', TF_CPP_MIN_LOG_LEVEL='3', MPLBACKEND='Agg', PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin')
try:
    shutil.copytree('/repo', wm, symlinks=True)
    d = work / 'demo'
    d.mkdir()
    shutil.copy(root / 'tools' / 'mini.py', d / 'mini.py')
    (d / 'demo.py').write_text('from mini import *\n' + ns['demo'].lstrip('\n'))
    (d / 'demo.sh').write_text('#!/bin/bash\n# ' + ns['title'] + '\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d / 'demo.sh', 0o755)
    run = lambda: subprocess.run(['bash', str(d / 'demo.sh')], cwd=wm, env=env, capture_output=True, text=True)
    a = run()
    if a.returncode:
        print('DEMO FAILS ON CLEAN', a.stdout[-1500:], a.stderr[-3000:]); sys.exit(1)
    orig = subprocess.run(['git', '-C', '/repo', 'show', 'a25c90f:' + ns['edits'][0][0]], capture_output=True, text=True).stdout
    for f, old, new in ns['edits']:
        p = wm / f
        s = p.read_text()
        assert s.count(old) == 1, (f, s.count(old))
        o = subprocess.run(['git', '-C', '/repo', 'show', 'a25c90f:' + f], capture_output=True, text=True).stdout
        removed = [l for l in old.splitlines() if l not in new.splitlines()]
        for l in removed:
            if l.strip() and l not in o.splitlines() and l.strip() not in o:
                print('WARNING: changed line not in the original:', l)
        p.write_text(s.replace(old, new))
    diff = subprocess.run(['git', 'diff', '--no-color'], cwd=wm, capture_output=True, text=True).stdout
    (d / 'patch.diff').write_text(diff)
    b = run()
    if b.returncode == 0:
        print('DEMO PASSES ON PATCHED', b.stdout[-1500:]); sys.exit(1)
    print('demo on patched: rc', b.returncode, b.stdout.strip().splitlines()[-1:] , b.stderr.strip().splitlines()[-1:])
    if '--notest' not in sys.argv:
        subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '--tb=no', '-n', '8', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors',
                        '-o', 'python_files=*_test.py', '-o', 'junit_family=xunit2', f'--junitxml={work}/j.xml', 'waymax'], cwd=wm, env=env, capture_output=True)
        subprocess.run(['python3', '/opt/vp/results.py', f'{work}/o.json', f'junit:{work}/j.xml'], capture_output=True)
        o = json.load(open(f'{work}/o.json'))
        st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        passed = set(o.get('passed', []))
        miss = sorted(st - passed)
        if miss:
            print('STABLE TESTS FAIL', miss[:5], len(miss)); sys.exit(1)
    (d / 'meta.json').write_text(json.dumps(dict(property=ns['property'], needs=ns['needs'], what_it_breaks=ns['breaks']), indent=1))
    shutil.rmtree(d / '__pycache__', ignore_errors=True)
    if out.exists():
        shutil.rmtree(out)
    shutil.copytree(d, out)
    print('KEPT', ns['id'])
finally:
    shutil.rmtree(work, ignore_errors=True)
