"""Plants a bug: python3 tools/plant.py SPEC.py   (SPEC defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO)
or re-verifies / runs the check against an existing one: python3 tools/plant.py --check ID [ID ...]
Works in scratch copies of /repo."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/bash\nexport PYTHONPATH="$PWD:$PYTHONPATH" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def check(i):
    meta = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    scratch = tempfile.mkdtemp(prefix='plant_') + '/repo'
    sh('git clone -q /repo %s' % scratch, '/tmp')
    env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VERIF_REPO=scratch)
    try:
        assert sh('git apply %s/seeded/%s/patch.diff' % (V, i), scratch).returncode == 0
        r = sh('timeout 900 ./run.sh %s --tier quick' % meta['property'], V, env=env)
    finally:
        shutil.rmtree(os.path.dirname(scratch))
    lines = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'rror' in l]
    print(i, meta['property'], 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + meta['property'] in r.stdout else 'MISSED rc=%d' % r.returncode)
    print('   ', '\n    '.join(l[:200] for l in lines[:3]))


def original(diff):
    """Lines removed by a patch which are not lines of the original repository."""
    base = sh('git rev-list --max-parents=0 HEAD | tail -1', '/repo').stdout.strip()
    base = os.environ.get('PLANT_BASE', base)
    f, bad = None, []
    for line in open(diff).read().splitlines():
        if line.startswith('--- a/'):
            f = sh('git show %s:%s' % (base, line[6:]), '/repo').stdout.splitlines()
        elif line.startswith('-') and not line.startswith('--') and line[1:].rstrip() not in [x.rstrip() for x in f]:
            bad.append(line)
    return bad


def plant(spec):
    g = {}
    exec(open(spec).read(), g)
    d = '%s/seeded/%s' % (V, g['ID'])
    os.makedirs(d, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='plant_') + '/repo'
    sh('git clone -q /repo %s && cp -a /repo/*.egg-info %s/ 2>/dev/null' % (scratch, scratch), '/tmp')
    open(d + '/demo.py', 'w').write(g['DEMO'])
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    if g.get('CPP'):
        shutil.copy(V + '/tools/planner.py', d)
        shutil.copytree(V + '/cpp', d + '/cpp', dirs_exist_ok=True)
    json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    a = sh('bash %s/demo.sh' % d, scratch)
    for f, old, new in g['EDITS']:
        p = os.path.join(scratch, f)
        s = open(p, newline='').read()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w', newline='').write(s.replace(old, new))
    r = sh('git diff > %s/patch.diff' % d, scratch)
    b = sh('bash %s/demo.sh' % d, scratch)
    t = sh('/opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider tests/test_autocast.py 2>&1 | tail -3', scratch,
           env=dict(os.environ, PYTHONPATH=scratch, PYTHONDONTWRITEBYTECODE='1'))
    print('lines not in the original repository:', original(d + '/patch.diff'))
    print('unchanged rc', a.returncode, '| patched rc', b.returncode, '| tests', t.stdout.strip().splitlines()[-1])
    if a.returncode:
        print(a.stdout[-1500:])
    print('   ', '\n    '.join(b.stdout.strip().splitlines()[-2:]))
    shutil.rmtree(os.path.dirname(scratch), ignore_errors=True)
    assert a.returncode == 0 and b.returncode != 0
    check(g['ID'])


if sys.argv[1] == '--check':
    for i in sys.argv[2:] or sorted(os.listdir(V + '/seeded')):
        check(i)
else:
    for s in sys.argv[1:]:
        plant(s)
