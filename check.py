#!/usr/bin/env python3
"""check.py <property>: decide one property from /repo's current source. See DESIGN.md."""
import sys, os, json, time, subprocess, tempfile, glob, shutil, struct, re, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/engine')
import build
PY = shutil.which('python3-vt') or sys.executable
T0 = time.time()
BUDGET = 840

def left(): return BUDGET - (time.time() - T0)

def run_harness(ll, spec, h, d, tmp, limit, patience=1, rich=False):
    out = '%s/%s.%s.json' % (tmp, os.path.basename(spec), h)
    opts = dict(replace=d['replace'], fp=d['fp'], limit=limit, out=out, patience=patience, rich=rich)
    r = subprocess.Popen([PY, V + '/engine/harness.py', ll, h, json.dumps(opts)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = r.communicate(timeout=limit + 60)
    except subprocess.TimeoutExpired:
        os.killpg(r.pid, signal.SIGKILL); r.communicate()
        return dict(harness=h, error='time limit (solver)', obligations=[], covers={}, functions=[], contracts=[], loops=[], stats={}, wall=limit)
    try: return json.load(open(out))
    except Exception: return dict(harness=h, error='engine stopped: ' + o.decode('utf8', 'replace')[-300:], obligations=[], covers={}, functions=[], contracts=[], loops=[], stats={}, wall=0)

def model_file(inp, path):
    n = {}
    with open(path, 'w') as f:
        for kind, name, v in inp['values']:
            if kind == 'arr':
                for k, x in v.items(): f.write('a %s %s %d\n' % (name, k, x & (2**64 - 1)))
            else:
                k = n.get(name, 0); n[name] = k + 1
                if kind == 'real': v = struct.unpack('<Q', struct.pack('<d', v))[0]
                f.write('v %s#%d %d\n' % (name, k, v))
        for h, b in inp['strings'].items():
            if b is None: continue
            b = b[:5000]
            f.write('s %s %d %s\n' % (h, len(b), ' '.join(map(str, b))))

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:hard_rss_limit_mb=3000', LC_ALL='C', TZ='UTC')

class Native:
    """the specification linked with the real libraries"""
    def __init__(self, spec, d, tmp):
        self.spec = spec; self.d = d; self.tmp = tmp; self.exe = None; self.err = None; self.done = False
    def build(self):
        if not self.done:
            self.done = True
            exe = '%s/%s.native' % (self.tmp, os.path.basename(self.spec))
            self.err = build.native(self.spec, exe, self.d['nflags'])
            if self.err is None: self.exe = exe
        return self.exe is not None
    def call(self, args, timeout):
        cwd = tempfile.mkdtemp(dir=self.tmp)
        try:
            p = subprocess.Popen([self.exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=cwd, start_new_session=True)
            try: o, e = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.communicate(); return None, '', ''
            # a native run that needs too much memory decides nothing
            if p.returncode == -signal.SIGKILL or b'rss limit' in e or b'Sanitizer: out of memory' in e or b'Sanitizer: out-of-memory' in e: return None, '', ''
            return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
        finally:
            shutil.rmtree(cwd, ignore_errors=True)
    def replay(self, h, inp):
        """'failed: ...' if the counterexample fails against the real code"""
        p = '%s/m%d.txt' % (self.tmp, time.time_ns())
        model_file(inp, p)
        rc, o, e = self.call(['replay', h, p], 60)
        if rc is None: return None
        m = re.search(r'^FAILED (.*)', o, re.M)
        if m: return m.group(1)
        if rc not in (0, 1, 2, 3): return 'crash (exit status %d) %s' % (rc, crash(e))
        return None
    def search(self, h, seed, secs, count=10**9, jobs=4):
        """bounded stand-in: sample inputs; returns (failure, seed, runs)"""
        res = []
        def one(j):
            sf = '%s/s%s%d%d' % (self.tmp, h, j, time.time_ns())
            s0 = (seed * 1000003 + j * 100000007) % (1 << 62)
            rc, o, e = self.call(['search', h, str(s0), str(count), str(secs), sf], secs + 90)
            m = re.search(r'RAN (\d+)', o)
            ran = int(m.group(1)) if m else 0
            f = re.search(r'^FAILED (.*)', o, re.M); s = re.search(r'^SEED (\d+)', o, re.M)
            if f: return f.group(1), int(s.group(1)), ran
            if rc not in (0, None):
                try: sd = struct.unpack('<Q', open(sf, 'rb').read(8))[0]
                except Exception: sd = None
                return 'crash (exit status %s) %s' % (rc, crash(e)), sd, ran
            return None, None, ran
        with ThreadPoolExecutor(jobs) as ex: res = list(ex.map(one, range(jobs)))
        ran = sum(r[2] for r in res)
        for r in res:
            if r[0]: return r[0], r[1], ran
        return None, None, ran

def crash(e):
    m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|Assertion [^\n]*|terminate called[^\n]*)', e)
    return m.group(1)[:200] if m else e[-200:].replace('\n', ' ')

def known():
    out = []
    p = V + '/KNOWN_FINDINGS.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) obligation="([^"]*)" (.*)', l)
            if m: out.append(m.groups())
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = sys.argv[2:]
    specs = sorted(glob.glob('%s/specs/%s.cpp' % (V, prop)) + glob.glob('%s/specs/%s_*.cpp' % (V, prop)))
    os.makedirs(V + '/build', exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True); os.makedirs(V + '/replay', exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='chk_%s_' % prop, dir=V + '/build')
    jobs = []; info = {}
    try:
        def comp(s):
            d = build.directives(s); ll = '%s/%s.ll' % (tmp, os.path.basename(s)[:-4])
            return s, d, ll, build.to_ir(s, ll, d['flags'])
        with ThreadPoolExecutor(8) as ex: comps = list(ex.map(comp, specs))
        for s, d, ll, err in comps:
            nat = Native(s, d, tmp)
            for h in build.harnesses(s):
                if only and h not in only: continue
                jobs.append((s, d, ll, err, h, nat))
        def go(j):
            s, d, ll, err, h, nat = j
            if err: return dict(harness=h, error='specification does not compile against this source: ' + err[:400], obligations=[], covers={}, functions=[], contracts=[], loops=[], stats={}, wall=0)
            lim = min(d['limit'] or 240, max(20, left() - 240))
            return run_harness(ll, s, h, d, tmp, lim)
        with ThreadPoolExecutor(8) as ex: results = list(ex.map(go, jobs))
        # what was not proved is tried again with more candidate invariants for loops, and with more time if the solver
        # ran out of it (a busy machine)
        def again(i):
            s, d, ll, err, h, nat = jobs[i]; r = run_harness(ll, s, h, d, tmp, max(60, min(2 * (d['limit'] or 240), left() - 330)), 4 if inconclusive(results[i]) else 1, True)
            r['retried'] = True
            if not r['error'] or results[i]['error']: results[i] = r
        slow = [i for i, r in enumerate(results) if not jobs[i][3] and (inconclusive(r) or any(o['discharged'] < o['checks'] for o in r['obligations']))]
        if slow and left() > 450:
            with ThreadPoolExecutor(8) as ex: list(ex.map(again, slow[:16]))
        # functions beyond the verifier's reach: bounded checks, never counted as proved
        extra = []
        for s, d, ll, err in comps:
            for h in build.harnesses(s, 'BOUNDED'):
                if only and h not in only: continue
                extra.append((s, d, ll, err, h, Native(s, d, tmp)))
        for j in extra:
            jobs.append(j)
            results.append(dict(harness=j[4], bounded=True, error=None, obligations=[], covers={}, functions=[], contracts=[], loops=[], stats={}, wall=0))
        return conclude(prop, tier, seed, jobs, results, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def inconclusive(r):
    if r['error'] and r['error'].startswith('time limit'): return True
    bad = [o for o in r['obligations'] if o['discharged'] < o['checks']]
    return bool(bad) and not any(not f.get('tainted') for o in bad for f in o['failed'])

def conclude(prop, tier, seed, jobs, results, tmp):
    kn = [k for k in known() if k[0] == prop]
    nob = ndis = nchk = 0
    viol = []; und = []; knownhit = []; bounded = []
    funcs = set(); contracts = set(); loops = []; backends = {}; stime = 0; harn = []
    samples = []
    for j, r in zip(jobs, results):
        s, d, ll, err, h, nat = j
        funcs.update(r['functions']); contracts.update(map(tuple, r['contracts'])); loops += r['loops']
        stime += r['stats'].get('solver_time', 0)
        hs = dict(harness=h, spec=os.path.basename(s), error=r['error'], wall=round(r['wall'], 1), obligations=len(r['obligations']), covers=r['covers'])
        harn.append(hs)
        vac = [c for c, ok in r['covers'].items() if not ok]
        bad = []
        for o in r['obligations']:
            nob += 1; nchk += o['checks']
            for b, n in o['backends'].items(): backends[b] = backends.get(b, 0) + n
            isk = [k for k in kn if k[1] == o['name']]
            if isk: 
                nob -= 1; nchk -= o['checks']
                if o['nfailed'] or o['discharged'] != o['checks'] or r['error']: knownhit.append(isk[0])
                continue
            if o['discharged'] == o['checks'] and not r['error']: ndis += 1
            else: bad.append(o)
        if r.get('bounded'):
            hs['bounded only'] = True
            und.append((j, r, bad, hs)); continue
        posts = [o for o in r['obligations'] if o['kind'] == 'post']
        if r['error'] or vac or not posts or bad:
            hs['undecided'] = [dict(obligation=o['name'], failed=o['nfailed'], unknown=o['unknown'], inexact=bool(o['failed'] and all(f['tainted'] for f in o['failed']))) for o in bad]
            if vac: hs['vacuous'] = vac
            if not posts and not r['error']: hs['error'] = 'no obligation reached'
            und.append((j, r, bad, hs))
    # counterexamples and the bounded stand-in
    if und:
        nats = {id(u[0][5]): u[0][5] for u in und}
        with ThreadPoolExecutor(4) as ex: list(ex.map(lambda n: n.build(), nats.values()))
    knames = set(k[1] for k in kn)
    per = 0
    if und: per = max(5, min(60 if tier == 'quick' else 120, (left() - 60) / (len(und) / 2 + 0.5)))
    def settle(u):
        j, r, bad, hs = u
        s, d, ll, err, h, nat = j
        if not nat.build():
            hs['native'] = 'does not build: ' + (nat.err or '')[:300]
        else:
            for o in bad:
                for f in o['failed']:
                    if not f['inputs']: continue
                    why = nat.replay(h, f['inputs'])
                    if why and why not in knames: return (j, o['name'], dict(kind='model', inputs=f['inputs'], failed=why), True)
            why, sd, ran = nat.search(h, seed, min(per, d['native_time'] or per, (10 if tier == 'quick' else 60) if r.get('bounded') else per), jobs=3)
            hs['bounded'] = dict(sampled_inputs=ran, failure=why)
            if why and why not in knames: return (j, (bad[0]['name'] if bad else why), dict(kind='seed', seed=sd, failed=why), True)
        # the verifier rejected an obligation and no failing input was found: still a violation.
        # If it stopped before the end (unsupported construct, time), only counterexamples that do not rest on an
        # abstraction of the loop state count; otherwise the bounded stand-in decides.
        ex = [o for o in bad if any(not f['tainted'] for f in o['failed'])] or ([] if r['error'] else bad)
        if ex:
            f = ([f for f in ex[0]['failed'] if not f['tainted']] or ex[0]['failed'] or [dict(inputs=None, where=None)])[0]
            return (j, ex[0]['name'], dict(kind='obligation', inputs=f['inputs'], where=f['where'], failed=ex[0]['name'], verifier=dict(checks=ex[0]['checks'], discharged=ex[0]['discharged'], failed=ex[0]['nfailed'], unknown=ex[0]['unknown'], output=ex[0]['failed'][:2])), False)
        return None
    with ThreadPoolExecutor(3) as ex:
        for v in ex.map(settle, und):
            if v: viol.append(v)
    if tier == 'thorough' and not viol:
        # sample the specification natively as well, as a cross check of the proofs
        ns = {}
        for j, r in zip(jobs, results): ns[id(j[5])] = j[5]
        with ThreadPoolExecutor(4) as ex: list(ex.map(lambda n: n.build(), ns.values()))
        todo = [(j, r) for j, r in zip(jobs, results) if j[5].exe]
        per2 = max(3, min(40, (left() - 60) / (len(todo) / 3 + 1)))
        def cross(x):
            j, r = x
            why, sd, ran = j[5].search(j[4], seed + 7, per2, jobs=2)
            return j, why, sd, ran
        with ThreadPoolExecutor(3) as ex:
            for j, why, sd, ran in ex.map(cross, todo):
                for hs in harn:
                    if hs['harness'] == j[4]: hs['sampled'] = ran
                if why and why not in knames: viol.append((j, why, dict(kind='seed', seed=sd, failed=why), True))
    funcs_repo = sorted(f for f in funcs if ('Osmium' in f) and 'vfh_' not in f)
    lines = []
    for k in {k for k in knownhit}: lines.append('KNOWN-FINDING: property=%s %s' % (k[0], k[2]))
    vout = []
    if viol:
        j, name, rep, conf = sorted(viol, key=lambda v: not v[3])[0]
        path = 'replay/%s.json' % prop
        rep.update(property=prop, spec=os.path.basename(j[0]), harness=j[4], obligation=name, reproduced_on_real_code=conf, how='python3 replay.py %s' % path)
        json.dump(rep, open('%s/%s' % (V, path), 'w'), indent=1, default=str)
        vout.append('failed obligation: %s [%s/%s] %s' % (name, os.path.basename(j[0]), j[4], rep.get('failed', '')))
        vout.append('VIOLATION property=%s replay=%s%s' % (prop, path, '' if conf else ' no-failing-input-found'))
    full = ndis == nob and not [u for u in und if not u[1].get('bounded')] and nob > 0
    try: meta = json.load(open(V + '/specs/assumptions.json'))
    except Exception: meta = {}
    m = [c for c in json.load(open(V + '/MANIFEST.json'))['checks'] if c['property'] == prop] if os.path.exists(V + '/MANIFEST.json') else []
    ev = dict(property=prop, tier=tier, seed=seed, level=(m[0]['level'] if m else 'proof'),
        coverage=dict(obligations=nob, discharged=ndis, vc_instances=nchk, checker_cmd='python3 /verif/check.py %s' % prop,
            trusted_base=['/verif/engine (verification condition generator and invariant inference)', 'clang 18 front end, LLVM 18 sroa/early-cse/simplifycfg', 'z3 4.x', 'cvc5 1.1.2', 'assumed library contracts in /verif/stubs and /verif/engine/intrinsics.py'],
            functions_under_contract=len(funcs_repo), functions=funcs_repo[:400], replaced_by_contract=[list(c) for c in sorted(contracts)],
            loops=dict(count=len(loops), cut_by_invariant=loops[:60]), back_ends=backends, solver_time_s=round(stime, 1), harnesses=harn, fully_discharged=full,
            bounded_standin=[dict(harness=hs['harness'], **hs['bounded']) for hs in harn if 'bounded' in hs]),
        assumptions=meta.get('*', []) + meta.get(prop, []), wall_s=round(time.time() - T0, 1), violations=len(viol))
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1, default=str)
    for l in lines: print(l)
    print('%s: %d of %d obligations discharged (%d verification conditions), %d harnesses, %d undecided, %.1fs' % (prop, ndis, nob, nchk, len(jobs), len([u for u in und if not u[1].get('bounded')]), time.time() - T0))
    for j, r, bad, hs in und:
        if r.get('bounded'):
            print('  bounded only: %s/%s: %s' % (os.path.basename(j[0]), j[4], hs.get('bounded') or hs.get('native'))); continue
        print('  not proved: %s/%s: %s %s%s' % (os.path.basename(j[0]), j[4], hs.get('error') or '', [o['name'] for o in bad][:4], '; bounded stand-in: %s' % hs['bounded'] if 'bounded' in hs else ''))
    for l in vout: print(l)
    return 1 if viol else 0

if __name__ == '__main__':
    try: rc = main()
    except Exception as e:
        import traceback; traceback.print_exc(); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
