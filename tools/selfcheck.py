#!/usr/bin/env python3
"""setup: the tools the checks need are there"""
import shutil, subprocess, sys, os
ok = True
for t in ('python3-vt', 'g++', 'c++filt'):
    if not shutil.which(t): print('missing', t); ok = False
if not os.path.exists('/usr/lib/llvm-18/bin/clang++'): print('missing clang++'); ok = False
ok = ok and subprocess.call(['python3-vt', '-c', 'import z3, cvc5']) == 0
sys.exit(0 if ok else 1)
