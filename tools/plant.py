#!/usr/bin/env python3
"""Makes and tries the planted bugs: plant.py make|try ID... (or `all`), using plants/list.py."""
import json, os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plants'))
from list import PLANTS
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE); REPO = '/repo'
SRC = REPO + '/giron/src/'

def sh(*cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def clean():
    if sh('git', '-C', REPO, 'status', '--porcelain').stdout.strip():
        sys.exit('/repo is not clean')

def apply(p):
    for file, old, new, *nth in p['edits']:
        path = SRC + file
        text = open(path).read()
        n = text.count(old)
        if n == 0 or (n > 1 and not nth):
            raise Exception(f"{p['id']}: {n} matches in {file} of {old!r}")
        at = -1
        for _ in range(nth[0] if nth else 1):
            at = text.index(old, at + 1)
        open(path, 'w').write(text[:at] + new + text[at + len(old):])

def make(p):
    clean()
    d = f"{VERIF}/seeded/{p['id']}"
    os.makedirs(d, exist_ok=True)
    t = f'{HERE}/plants/w' if p['prop'] == 'C21' else f'{HERE}/plants'
    for f in os.listdir(t):
        if f.endswith(('.rs', '.sh', '.lock')):
            shutil.copy(f'{t}/{f}', d)
    with open(d + '/cases.txt', 'w') as f:
        for mode, goal, src in p['cases']:
            f.write(f"{mode} {goal} {json.dumps(src)}\n")
    json.dump({'property': p['prop'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    if not p.get('any_lines'):
        blame = {}
        apply(p)
        diff = sh('git', '-C', REPO, 'diff', '-U0').stdout
        sh('git', '-C', REPO, 'checkout', '--', '.')
        file = None
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                file = l[6:]
            elif l.startswith('@@'):
                a = l.split()[1][1:].split(',')
                start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                b = sh('git', '-C', REPO, 'blame', '-s', file).stdout.splitlines()
                for i in range(start, start + n):
                    if not b[i - 1].lstrip('^').startswith('585382a'):
                        print(f"  {p['id']}: not an original line: {b[i-1].strip()[:120]}")
    r = sh('bash', d + '/demo.sh', 'record', cwd=REPO)
    if r.returncode:
        return 'the demo fails on the unchanged tree: ' + r.stdout
    apply(p)
    try:
        open(d + '/patch.diff', 'w').write(sh('git', '-C', REPO, 'diff').stdout)
        r = sh('bash', '/opt/vp/build.sh')
        if r.returncode:
            return 'does not build: ' + r.stdout[-1500:]
        sh('bash', '/opt/vp/test.sh', '/tmp/t.json')
        t = json.load(open('/tmp/t.json'))
        passed = t.get('passed') or t.get('pass') or []
        missing = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in passed]
        if missing:
            return f'tests fail: {missing}'
        r = sh('bash', d + '/demo.sh', cwd=REPO)
        if r.returncode == 0:
            return 'the demo passes with the change'
        return 'ok: ' + r.stdout.strip()[:300].replace('\n', ' | ')
    finally:
        sh('git', '-C', REPO, 'checkout', '--', '.')

def attempt(p, checks=None):
    clean()
    d = f"{VERIF}/seeded/{p['id']}"
    r = sh('git', '-C', REPO, 'apply', d + '/patch.diff')
    if r.returncode:
        return 'does not apply'
    res = []
    try:
        for c in checks or [p['prop']]:
            t = time.time()
            r = sh('node', 'checks/run.mjs', c, 'quick', cwd=VERIF, env={**os.environ, 'VERIF_SEED': os.environ.get('VERIF_SEED', '1'), 'VERIF_TIER': 'quick'})
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res.append(f"{c} {'CAUGHT' if r.returncode == 1 and v else 'quiet' if r.returncode == 0 else 'BROKEN ' + str(r.returncode)} {time.time()-t:.0f}s")
    finally:
        sh('git', '-C', REPO, 'checkout', '--', '.')
    return ', '.join(res)

if __name__ == '__main__':
    mode, ids = sys.argv[1], sys.argv[2:]
    for p in PLANTS:
        if 'all' in ids or p['id'] in ids or p['prop'] in ids:
            if mode == 'make':
                print(p['id'], make(p), flush=True)
            elif mode == 'try':
                if os.path.exists(f"{VERIF}/seeded/{p['id']}/patch.diff"):
                    print(p['id'], attempt(p), flush=True)
