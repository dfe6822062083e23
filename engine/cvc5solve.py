"""second back end: the same verification condition, printed as SMT-LIB 2, given to cvc5"""
import z3, subprocess, tempfile, os, shutil

CVC5 = shutil.which('cvc5') or '/usr/local/bin/cvc5'

def check(fs, timeout=30):
    s = z3.Solver()
    for f in fs: s.add(f)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f: f.write(txt)
        try:
            r = subprocess.run([CVC5, '--tlimit=%d' % (timeout * 1000), p], capture_output=True, text=True, timeout=timeout + 10)
        except (subprocess.TimeoutExpired, OSError):
            return 'unknown'
        o = r.stdout.split('\n')[0].strip()
        return o if o in ('sat', 'unsat') else 'unknown'
    finally:
        os.unlink(p)
