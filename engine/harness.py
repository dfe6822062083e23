"""Run one harness of one compiled specification; print the result as JSON."""
import sys, os, json, time, re, subprocess, traceback, gc
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import llparse, symexec
from engine import Restart, OutOfTime, NeedInvariant
from values import Unsupported

def demangle_all(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))

def run(ll, harness, opts):
    sys.setrecursionlimit(100000)
    mod = llparse.Module(open(ll).read())
    eng = symexec.Exec(mod, opts)
    eng.usedcontracts = set()
    eng.demangle = demangle_all(list(mod.funcs))
    rep = []
    for rx, to in opts.get('replace', []):
        rep.append((re.compile(rx), to))
    eng.contracts = rep
    t0 = time.time()
    eng.deadline = t0 + opts.get('limit', 240)
    err = None
    nres = 0
    while True:
        eng.reset(); eng.invloops = set()
        err = None
        try:
            st = symexec.State()
            for c in ctors(mod):
                d = eng.run_function(c, st)
                if len(d) != 1 or d[0].done != 'finished': raise Unsupported('static initialisation')
                st = d[0]; st.done = None; st.frames = []
            done = eng.run_function('vfh_' + harness, st)
            break
        except Restart:
            nres += 1
            if nres > 60: err = 'layout does not converge'; break
            continue
        except OutOfTime: err = 'time limit'; break
        except Unsupported as e:
            err = 'unsupported: %s' % e
            if opts.get('debug'): traceback.print_exc()
            break
        except RecursionError: err = 'unsupported: recursion'; break
        except NeedInvariant: err = 'unsupported: loop'; break
        except (z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, AssertionError, SyntaxError, StopIteration, ValueError) as e:
            err = 'internal: %s: %s' % (type(e).__name__, e)
            if opts.get('debug'): traceback.print_exc()
            break
    src = [f for f in eng.functions]
    funs = sorted(set(eng.dm(f) for f in src))
    return dict(harness=harness, error=err, wall=time.time() - t0, restarts=nres,
        obligations=[dict(name=o.name, kind=o.kind, checks=o.checks, discharged=o.discharged, failed=o.failed[:4], nfailed=len(o.failed), unknown=o.unknown, time=round(o.time, 3), backends=o.backends) for o in eng.obls.values()],
        covers=eng.covers, functions=funs, contracts=sorted(eng.usedcontracts), loops=eng.loopinfo, stats=eng.stats)

def ctors(mod):
    g = mod.globals.get('llvm.global_ctors')
    out = []
    if g is not None and g.init is not None and g.init[0] == 'agg':
        for t, v in g.init[2]:
            f = v[2][1][1]
            if f[0] == 'g': out.append(f[1])
    return out

if __name__ == '__main__':
    ll, h = sys.argv[1], sys.argv[2]
    opts = json.loads(sys.argv[3]) if len(sys.argv) > 3 else {}
    r = run(ll, h, opts)
    if opts.get('out'):
        json.dump(r, open(opts['out'], 'w'))
    else:
        for o in r['obligations']:
            print('%-4s %-70s %d/%d failed %d unknown %d  %.1fs %s' % ('ok' if o['discharged'] == o['checks'] else 'FAIL', o['name'], o['discharged'], o['checks'], o['nfailed'], o['unknown'], o['time'], o['backends']))
        print('covers', r['covers'], 'error', r['error'], 'wall %.1f' % r['wall'], r['stats'], 'restarts', r['restarts'])
        for l in r['loops']: print('  loop', l)
