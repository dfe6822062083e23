"""Compile specifications: to LLVM IR for the verifier (assumed contracts in /verif/stubs for library headers),
and natively against the real libraries for replay."""
import os, subprocess, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
CLANG = '/usr/lib/llvm-18/bin/clang++'
OPT = '/usr/bin/opt-18'

def directives(spec):
    d = dict(replace=[], fp='uf', flags=[], nflags=[], limit=None, native_time=None)
    for l in open(spec):
        m = re.match(r'//\s*REPLACE:\s*(\S.*?)\s+WITH\s+(\S+)', l)
        if m: d['replace'].append((m.group(1), m.group(2)))
        m = re.match(r'//\s*FP:\s*(\w+)', l)
        if m: d['fp'] = m.group(1)
        m = re.match(r'//\s*FLAGS:\s*(.*)', l)
        if m: d['flags'] += m.group(1).replace('@V', V).split()
        m = re.match(r'//\s*NATIVE-FLAGS:\s*(.*)', l)
        if m: d['nflags'] += m.group(1).replace('@V', V).split()
        m = re.match(r'//\s*LIMIT:\s*(\d+)', l)
        if m: d['limit'] = int(m.group(1))
        m = re.match(r'//\s*NATIVE-TIME:\s*(\d+)', l)
        if m: d['native_time'] = int(m.group(1))
    return d

def harnesses(spec, kind='HARNESS'):
    return re.findall(r'^%s\((\w+)\)' % kind, open(spec).read(), re.M)

COMMON = ['-g0', '-w', '-std=gnu++17', '-D_LARGEFILE_SOURCE', '-D_FILE_OFFSET_BITS=64', '-fno-access-control', '-ffp-contract=off', '-DVF_SPEC']

def to_ir(spec, out, flags):
    cmd = [CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm', '-DVF_ENGINE', '-fno-builtin', '-fno-discard-value-names', '-U_FORTIFY_SOURCE'] + COMMON + \
          ['-I' + V + '/include', '-I' + V + '/specs', '-I' + V + '/stubs/std', '-I' + V + '/stubs/lib', '-I' + REPO + '/include'] + flags + [spec, '-o', out + '.raw.ll']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: return r.stderr[:3000]
    r = subprocess.run([OPT, '-S', '-passes=function(sroa,early-cse,simplifycfg)', out + '.raw.ll', '-o', out], capture_output=True, text=True)
    os.unlink(out + '.raw.ll')
    if r.returncode: return r.stderr[:3000]
    return None

def native(spec, out, flags):
    xml = ['-I/usr/include/libxml2']
    cmd = ['g++', '-O1', '-DVF_NATIVE', '-D_GLIBCXX_ASSERTIONS', '-DOSMIUM_WITH_DEBUG', '-fsanitize=address', '-fno-omit-frame-pointer', '-include', 'new', '-include', 'cstdlib', '-rdynamic'] + COMMON + xml + \
          ['-I' + V + '/include', '-I' + V + '/specs', '-I' + REPO + '/include', spec, V + '/include/vf_native.cpp', '-o', out] + flags + ['-ldl']
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.stderr[:3000] if r.returncode else None

if __name__ == '__main__':
    spec = sys.argv[1]; d = directives(spec)
    b = V + '/build'; os.makedirs(b, exist_ok=True)
    n = os.path.basename(spec)[:-4]
    if len(sys.argv) > 2 and sys.argv[2] == 'native':
        print(native(spec, b + '/' + n + '.native', d['nflags']) or 'ok')
    else:
        print(to_ir(spec, b + '/' + n + '.ll', d['flags']) or 'ok', harnesses(spec))
