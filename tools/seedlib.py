"""Plant, verify and score seeded bugs (development tool; no check reads seeded/).

python3 tools/seedlib.py plant FILE.py   FILE defines SEEDS = [dict(id=, property=, file=, edits=[(old,new),..], needs=, breaks=, demo=)]
python3 tools/seedlib.py score [ID ...]  run the property's quick check against each planted bug
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
PY = '/opt/venv/bin/python'
BASE = subprocess.run(['git', '-C', R, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, '', 'timeout')


def worktree(name):
    d = f'/tmp/seedwt/{name}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/seedwt', exist_ok=True)
    sh(['git', 'clone', '-q', '--no-hardlinks', R, d])
    return d


def stable(d):
    t = open('/opt/vp/test.sh').read().replace('cd /repo', f'cd {d}')
    open(d + '.test.sh', 'w').write(t)
    sh(['bash', d + '.test.sh', d + '.json'], cwd=d, env={'PYTHONPATH': d})
    try:
        ok = set(json.load(open(d + '.json'))['passed'])
    except FileNotFoundError:
        return ['no result']
    return [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in ok]


def plant(s):
    d = worktree(s['id'])
    try:
        edits = s['edits']
        for e in edits:
            f, old, new = e if len(e) == 3 else (s['file'],) + tuple(e)
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s['id'], f'FAIL: {t.count(old)} matches of {old[:60]!r}'
            # removed lines have to be original ones
            a = t[:t.index(old)].count('\n') + 1
            b = a + old.rstrip('\n').count('\n')
            nl, ol = set(new.split('\n')), old.split('\n')
            blame = sh(['git', 'blame', '-s', '-l', '--root', '-L', f'{a},{b}', '--', f], cwd=d).stdout.splitlines()
            for line in blame:
                h = line.split()[0]
                src = line.split(')', 1)[1][1:] if ')' in line else ''
                if not h.startswith(BASE[:30]) and src not in nl:
                    print('   note', s['id'], 'changes a line of a fix commit:', src)
            open(p, 'w').write(t.replace(old, new))
        diff = sh(['git', 'diff'], cwd=d).stdout
        out = os.path.join(V, 'seeded', s['id'])
        tmp = f'/tmp/seedwt/{s["id"]}.demo'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + '/demo.sh', 'w').write(DEMO)
        open(tmp + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(tmp + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(tmp + '/meta.json', 'w'), indent=1)
        bad = sh(['bash', tmp + '/demo.sh'], cwd=d, timeout=300)
        good = sh(['bash', tmp + '/demo.sh'], cwd=R, timeout=300)
        if good.returncode != 0:
            return s['id'], 'FAIL: demo fails on clean tree: ' + (good.stdout + good.stderr)[-400:]
        if bad.returncode == 0:
            return s['id'], 'FAIL: demo passes with the bug'
        lost = stable(d)
        if lost:
            return s['id'], f'FAIL: stable tests lost {lost[:4]}'
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        shutil.copytree(tmp, out)
        return s['id'], 'planted; ' + score1(s['id'], d) + '; demo says: ' + (bad.stdout + bad.stderr).strip().splitlines()[-1][:120]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def score1(i, d=None):
    prop = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
    if not os.path.exists(f'{V}/mc/props/{prop.lower()}.py'):
        return 'no check'
    own = d is None
    if own:
        d = worktree(i)
        a = sh(['git', 'apply', f'{V}/seeded/{i}/patch.diff'], cwd=d)
        if a.returncode:
            return 'DOES NOT APPLY ' + a.stderr[:200]
    r = sh([PY, 'mc/run.py', prop, 'quick'], cwd=V, env={'MC_REPO': d, 'MC_OUT': f'/tmp/seedwt/out-{i}', 'PYTHONDONTWRITEBYTECODE': '1'})
    if own:
        shutil.rmtree(d, ignore_errors=True)
    hit = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return ('caught' if r.returncode == 1 and hit else f'MISSED rc={r.returncode}') + ' ' + r.stdout.strip().splitlines()[-1] if r.stdout.strip() else f'rc={r.returncode} {r.stderr[-300:]}'


if __name__ == '__main__':
    n = int(os.environ.get('SEED_JOBS', '4'))
    with cf.ThreadPoolExecutor(n) as ex:
        if sys.argv[1] == 'plant':
            ns = {}
            exec(open(sys.argv[2]).read(), ns)
            pick = set(sys.argv[3:])
            for i, r in ex.map(plant, [s for s in ns['SEEDS'] if not pick or s['id'] in pick]):
                print(i, r, flush=True)
        else:
            ids = sys.argv[2:] or sorted(os.listdir(f'{V}/seeded'))
            for i, r in zip(ids, ex.map(score1, ids)):
                print(i, r, flush=True)
