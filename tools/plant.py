"""Create /verif/seeded/<id> from a description and confirm it: builds, passes the stable tests, demo passes on the
unchanged tree and fails with the patch; then report what the property's check says.
usage: plant.py FILE.py ...   (each defines BUGS = [dict(id=, prop=, edits=[(file, old, new)], demo=, needs=, breaks=)])
       plant.py --recheck [ID ...]   re-confirm kept changes and re-run the checks on them"""
import sys, os, json, subprocess, tempfile, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
DEMO = '''#!/bin/bash
# compiles demo.cpp against the headers in the current directory and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++17 -w -D_LARGEFILE_SOURCE -D_FILE_OFFSET_BITS=64 -I/usr/include/libxml2 -I"$repo/include" "$here/demo.cpp" -o "$tmp/demo" @LIBS@ || exit 2
cd "$tmp" && timeout 120 ./demo "$tmp"
'''
def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)
def clean():
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'], check=True)
def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b
def runtests():
    r = sh('bash', '/opt/vp/build.sh')
    if r.returncode: return 'BUILD FAILS ' + (r.stderr or r.stdout)[-800:]
    r = sh('bash', '/opt/vp/test.sh', '/tmp/plant_out.json')
    t = (r.stdout + r.stderr).strip().splitlines()
    return t[-1] if t else 'no output'
def confirm(d, prop, fast=False):
    ok = True
    r = sh('bash', d + '/demo.sh', cwd=R)
    if r.returncode: print('   demo FAILS on clean tree:', r.stdout[-500:], r.stderr[-1500:]); return False
    r = sh('git', '-C', R, 'apply', d + '/patch.diff')
    if r.returncode: print('   patch does not apply', r.stderr); return False
    try:
        if not fast:
            t = runtests(); print('   tests:', t)
            if ' 0 failed' not in t: ok = False
        r = sh('bash', d + '/demo.sh', cwd=R)
        print('   demo with patch: exit', r.returncode, (r.stdout.strip().splitlines() or [''])[-1][:150], r.stderr[-300:] if r.returncode == 2 else '')
        if r.returncode == 0 or r.returncode == 2: ok = False
        env = dict(os.environ, VERIF_TIER='quick', VERIF_SEED='1')
        c = sh('python3', V + '/check.py', prop, env=env, cwd=V)
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        print('   check %s: exit %d %s' % (prop, c.returncode, v[:1]))
        if c.returncode == 0 and ok: print('   MISSED')
    finally:
        clean()
    return ok
def main():
    if sh('git', '-C', R, 'status', '--porcelain').stdout.strip(): sys.exit('/repo is not clean')
    if sys.argv[1] == '--recheck':
        ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
        for i in ids:
            d = V + '/seeded/' + i
            print(i, flush=True); confirm(d, json.load(open(d + '/meta.json'))['property'], fast=True)
        return
    for f in sys.argv[1:]:
        g = {}; exec(open(f).read(), g)
        for b in g['BUGS']:
            print(b['id'], flush=True)
            d = V + '/seeded/' + b['id']
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            try:
                bad = False
                for fn, old, new in b['edits']:
                    s = open(R + '/' + fn).read()
                    if s.count(old) != 1: print('   edit matches', s.count(old)); bad = True; continue
                    open(R + '/' + fn, 'w').write(s.replace(old, new))
                p = sh('git', '-C', R, 'diff').stdout
            finally:
                clean()
            if bad: shutil.rmtree(d); continue
            open(d + '/patch.diff', 'w').write(p)
            open(d + '/demo.sh', 'w').write(DEMO.replace('@LIBS@', b.get('libs', '')))
            open(d + '/demo.cpp', 'w').write(b['demo'])
            json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
            if not confirm(d, b['prop']):
                print('   DROPPED'); shutil.move(d, '/tmp/dropped_' + b['id']) if not os.path.exists('/tmp/dropped_' + b['id']) else shutil.rmtree(d)
    runtests()
main()
