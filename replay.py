#!/usr/bin/env python3
"""replay.py replay/<id>.json: run the recorded input against the code in /repo (exit 1 if it still fails)."""
import sys, os, json, tempfile, shutil, struct
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/engine'); sys.path.insert(0, V)
import build, check
r = json.load(open(sys.argv[1]))
print('property %(property)s, obligation "%(obligation)s" (%(spec)s/%(harness)s)' % r)
spec = '%s/specs/%s' % (V, r['spec'])
os.makedirs(V + '/build', exist_ok=True)
tmp = tempfile.mkdtemp(prefix='rpl_', dir=V + '/build')
try:
    if r['kind'] == 'obligation':
        print('no failing input recorded; output of the verifier:'); print(json.dumps(r.get('verifier'), indent=1)[:4000]); sys.exit(0)
    n = check.Native(spec, build.directives(spec), tmp)
    if not n.build(): print('does not build:', n.err); sys.exit(2)
    if r['kind'] == 'model': why = n.replay(r['harness'], r['inputs'])
    else:
        sf = tmp + '/s'
        rc, o, e = n.call(['search', r['harness'], str(r['seed']), '1', '60', sf], 100)
        why = o.strip() if 'FAILED' in o else (check.crash(e) if rc else None)
    print('FAILS: %s' % why if why else 'passes')
    sys.exit(1 if why else 0)
finally: shutil.rmtree(tmp, ignore_errors=True)
