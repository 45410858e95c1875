"""Planted bugs.  mk(): write seeded/<id>;  python3 tools/seed.py ID...: confirm
in a private copy mounted over /repo that the patch builds, passes the tests,
and is told apart by the demonstration; then run the checks named."""
import json, os, subprocess, sys, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = os.path.join(ROOT, 'seeded')
DEMO = '''#!/bin/bash
# run in /repo after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
inc=$(for i in include include/small _build/plain/small/include third_party third_party/pmatomic _build/plain; do [ -d $i ] && echo -I $i; done)
gcc -std=gnu11 -g -O1 -w -D_GNU_SOURCE $inc "$d/demo.c" _build/plain/libsmall.a -o "$t/demo" -lpthread -lm || exit 3
cd "$t" && timeout 200 ./demo
'''


def mk(sid, prop, edits, demo, needs, breaks, sh=DEMO):
    d = os.path.join(SEEDS, sid)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mk')
    subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
    for f, old, new in edits:
        p = os.path.join(t, 'r', f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', t + '/r', 'diff'], text=True)
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.c', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(sh)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t)


SCRIPT = r'''
mount --bind %(w)s /repo && cd /repo || exit 90
bash /opt/vp/build.sh > %(l)s.build 2>&1 || exit 91
bash %(d)s/demo.sh > %(l)s.demo0 2>&1 || exit 92
git apply %(d)s/patch.diff || exit 93
bash /opt/vp/test.sh %(l)s.json > %(l)s.test 2>&1
bash /opt/vp/build.sh > %(l)s.build 2>&1 || exit 94
python3 - <<'P' || exit 95
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('%(l)s.json'))
ok=set(r['passed'])
want=b.get('stable') or b.get('passed') or b.get('tests')
miss=[t for t in want if t not in ok]
if miss: print('tests failing:', miss); raise SystemExit(1)
P
bash %(d)s/demo.sh > %(l)s.demo1 2>&1 && exit 96
exit 0
'''
WHY = {90: 'no mount', 91: 'clean build fails', 92: 'demo fails on the clean tree', 93: 'patch does not apply', 94: 'does not build',
       95: 'tests fail', 96: 'demo passes with the patch'}


def confirm(sid):
    d = os.path.join(SEEDS, sid)
    meta = json.load(open(d + '/meta.json'))
    t = tempfile.mkdtemp(prefix='seed')
    try:
        w, l = t + '/r', t + '/l'
        subprocess.check_call(['cp', '-a', '/repo', w])
        dd = t + '/d'
        shutil.copytree(d, dd)
        rc = subprocess.run(['unshare', '-Urm', 'bash', '-c', SCRIPT % dict(w=w, l=l, d=dd)], capture_output=True, text=True)
        out = ''
        if rc.returncode:
            out = rc.stdout + rc.stderr
            for x in ('demo0', 'demo1', 'build'):
                if os.path.exists(l + '.' + x):
                    out += '\n[%s] ' % x + '\n'.join(open(l + '.' + x, errors='replace').read().splitlines()[-6:])
            return sid, 'INVALID: %s\n%s' % (WHY.get(rc.returncode, rc.returncode), out)
        r = subprocess.run([sys.executable, '-m', 'sa.runner', meta['property']], cwd=ROOT, capture_output=True, text=True,
                           env=dict(os.environ, SMALL_REPO=w))
        return sid, '%s %s: %s' % ({0: 'MISSED', 1: 'caught'}.get(r.returncode, 'rc=%d' % r.returncode), meta['property'],
                                   ' | '.join(x.strip()[:160] for x in r.stdout.splitlines()[:3]))
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:] or sorted(os.listdir(SEEDS))
    with ThreadPoolExecutor(4) as ex:
        for sid, res in ex.map(confirm, ids):
            print('%-28s %s' % (sid, res), flush=True)
