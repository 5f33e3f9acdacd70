"""Builds /repo's sources to LLVM bitcode and prepares single functions for verification.
Everything is rebuilt from the working tree; output goes to a private directory."""
import os, re, subprocess, sys, glob, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
LL = '/usr/lib/llvm-18/bin/'
CLANG = 'clang-18'

def mpi_flags():
    try:
        o = subprocess.run(['mpicc', '-show'], capture_output=True, text=True).stdout
        return [t for t in o.split() if t.startswith('-I')]
    except OSError:
        return []

def extra_inc():
    out = []
    for d in ('/usr/include/trilinos', '/usr/include/hdf5/serial'):
        if os.path.isdir(d):
            out.append('-I' + d)
    return out

class BuildError(Exception):
    pass

def make_include(dst):
    os.makedirs(dst, exist_ok=True)
    for f in glob.glob(REPO + '/include/*.h'):
        shutil.copy(f, dst)
    t = None
    for cand in ('MSTK_defines.h.in', 'MSTK_defines.h'):
        p = os.path.join(REPO, 'include', cand)
        if os.path.exists(p):
            t = open(p).read()
            break
    if t is not None:
        t = re.sub(r'@MSTK_VERSION_MAJOR@', '3', t)
        t = re.sub(r'@MSTK_VERSION_MINOR@', '3', t)
        t = re.sub(r'@MSTK_VERSION_PATCH@', '2', t)
        t = re.sub(r'@\w+@', '0', t)
        t = re.sub(r'#\s*cmakedefine\s+MSTK_HAVE_MPI\b.*', '#define MSTK_HAVE_MPI', t)
        t = re.sub(r'#\s*cmakedefine\s+(\w+).*', r'/* #undef \1 */', t)
        open(os.path.join(dst, 'MSTK_defines.h'), 'w').write(t)

def sources():
    return sorted(glob.glob(REPO + '/src/*/*.c'))

def cflags(inc):
    return ['-std=gnu99', '-I' + inc, '-I' + REPO + '/src/base'] + mpi_flags() + extra_inc() + \
        ['-DMSTK_HAVE_METIS', '-DMSTK_HAVE_ZOLTAN'] + ['-w']

def build_bc(out):
    """compile every source; returns (bitcode path, list of files that failed)"""
    inc = os.path.join(out, 'inc')
    make_include(inc)
    fl = cflags(inc)
    bcs, bad = [], []

    def one(s):
        o = os.path.join(out, s[len(REPO):].replace('/', '_') + '.bc')
        p = subprocess.run([CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-g0', '-emit-llvm', '-c', s, '-o', o] + fl,
                           capture_output=True, text=True)
        return (s, o, p.returncode, p.stderr)
    with ThreadPoolExecutor(8) as ex:
        for s, o, rc, err in ex.map(one, sources()):
            if rc == 0:
                bcs.append(o)
            else:
                bad.append((s, err[-400:]))
    allbc = os.path.join(out, 'all.bc')
    p = subprocess.run([LL + 'llvm-link'] + bcs + ['-o', allbc], capture_output=True, text=True)
    if p.returncode:
        raise BuildError('llvm-link: ' + p.stderr[-400:])
    return allbc, bad

class Program:
    """callgraph over the un-inlined program"""

    def __init__(self, allbc, out):
        self.bc, self.out = allbc, out
        ll = os.path.join(out, 'all.ll')
        subprocess.run([LL + 'llvm-dis', allbc, '-o', ll], check=True)
        self.calls = {}
        self.size = {}
        # internal globals that no code in the whole program ever writes (dispatch tables): LLVM proves them constant
        q = subprocess.run([LL + 'opt', '-S', '-passes=globalopt', allbc, '-o', '-'], capture_output=True, text=True)
        self.constg = set(re.findall(r'^@([-\w$.]+) = internal (?:unnamed_addr )?constant', q.stdout, re.M))
        cur = None
        for ln in open(ll):
            if ln.startswith('define '):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
                cur = m.group(1).strip('"')
                self.calls[cur] = set()
                self.size[cur] = 0
            elif cur is not None:
                if ln.startswith('}'):
                    cur = None
                    continue
                self.size[cur] += 1
                if ' call ' in ln or ln.startswith('  call'):
                    m = re.search(r'call [^@%]*@("[^"]*"|[-\w$.]+)\(', ln)
                    if m:
                        self.calls[cur].add(m.group(1).strip('"'))

    def save(self):
        import pickle
        pickle.dump((self.bc, self.out, self.calls, self.size, self.constg), open(os.path.join(self.out, 'prog.pkl'), 'wb'))

    @staticmethod
    def load(out):
        import pickle
        p = Program.__new__(Program)
        p.bc, p.out, p.calls, p.size, p.constg = pickle.load(open(os.path.join(out, 'prog.pkl'), 'rb'))
        return p

    def prepare(self, fname, stop):
        """text of fname with every callee that has neither a contract nor a model inlined"""
        if fname not in self.calls:
            raise BuildError('function %s is not defined in the sources' % fname)
        todo = [fname]
        inl = []
        while todo:
            f = todo.pop()
            for c in self.calls.get(f, ()):
                if c in self.calls and not stop(c) and c not in inl and c != fname and self.size[c] < 900:
                    inl.append(c)
                    todo.append(c)
        args = ['--func=' + f for f in [fname] + inl] + ['--rglob=.*']
        p = subprocess.run([LL + 'llvm-extract', '-S', self.bc] + args, capture_output=True, text=True)
        if p.returncode:
            raise BuildError('llvm-extract: ' + p.stderr[-300:])
        t = re.sub(r'^@([-\w$.]+) = (internal|dso_local|external hidden|hidden)( unnamed_addr)? global \[', lambda m: m.group(0).replace(' global ', ' constant ') if m.group(1) in self.constg else m.group(0), p.stdout, flags=re.M)
        # a zero-offset field access is folded to the bare pointer by LLVM's simplifier, which would hide that it
        # is a field (and not an array element): keep it visible as a pure marker call
        t, n = re.subn(r'= getelementptr inbounds (%struct\.[\w.]+|%"[^"]+"), ptr ([%@][-\w$.]+), i32 0, i32 0$', r'= call ptr @__f0(ptr \2) #9999', t, flags=re.M)
        t += '\ndeclare ptr @__f0(ptr) #9999\nattributes #9999 = { nounwind willreturn memory(none) }\n'
        # attribute groups: give inlined functions alwaysinline
        if inl:
            lines = t.split('\n')
            inls = set(inl)
            for i, ln in enumerate(lines):
                if ln.startswith('define '):
                    m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
                    if m.group(1).strip('"') in inls:
                        ln = re.sub(r' #\d+ ', ' alwaysinline ', ln)
                        lines[i] = ln.replace('define dso_local', 'define internal').replace('define hidden', 'define internal')
            t = '\n'.join(lines)
        src = os.path.join(self.out, 'f_%s.ll' % fname)
        dst = os.path.join(self.out, 'p_%s.ll' % fname)
        open(src, 'w').write(t)
        p = subprocess.run([LL + 'opt', '-S', '-internalize-public-api-list=' + fname, '-passes=internalize,always-inline,function(sroa<preserve-cfg>,mem2reg,instsimplify,early-cse,simplifycfg,loop-simplify,adce,instsimplify),globaldce', src, '-o', dst],
                           capture_output=True, text=True)
        if p.returncode:
            raise BuildError('opt: ' + p.stderr[-300:])
        return open(dst).read(), inl

SAN = ['-fsanitize=address,undefined', '-fno-sanitize=function,alignment,shift-base,signed-integer-overflow,float-cast-overflow', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']

def build_native(src, exe, out):
    """all of /repo's sources + one harness, with ASan and UBSan"""
    d = os.path.join(out, 'nat')
    os.makedirs(d, exist_ok=True)
    inc = os.path.join(out, 'ninc')
    make_include(inc)
    fl = cflags(inc)[1:] + ['-O1', '-g1'] + SAN
    objs = []

    def one(s):
        if s == src:
            o = os.path.join(d, 'harness.o')
            cmd = ['clang++-18', '-std=gnu++17'] + fl + ['-c', s, '-o', o]
        else:
            o = os.path.join(d, s[len(REPO):].replace('/', '_') + '.o')
            cmd = [CLANG, '-std=gnu99'] + fl + ['-c', s, '-o', o]
        p = subprocess.run(cmd, capture_output=True, text=True)
        return s, o, p.returncode, p.stderr
    bad = []
    with ThreadPoolExecutor(8) as ex:
        for s, o, rc, err in ex.map(one, [src] + sources()):
            if rc:
                bad.append((s, err))
                if s == src:
                    raise BuildError('harness does not compile: ' + err[-1500:])
            elif s != src:
                objs.append(o)
    ar = os.path.join(d, 'libm.a')
    if os.path.exists(ar):
        os.unlink(ar)
    subprocess.run(['ar', 'rcs', ar] + objs, check=True)
    p = subprocess.run(['clang++-18'] + SAN + [os.path.join(d, 'harness.o'), ar, ar, '-o', exe] + mpi_link() + ['-lm', '-Wl,--unresolved-symbols=ignore-all'],
                       capture_output=True, text=True)
    if p.returncode:
        raise BuildError('native link: ' + p.stderr[-1500:])

def mpi_link():
    o = subprocess.run(['mpicc', '-show'], capture_output=True, text=True).stdout
    return [t for t in o.split() if t.startswith('-L') or t.startswith('-l')]
