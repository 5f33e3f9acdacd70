"""Contracts, library models and the per-function verification driver."""
import time
import sys, os, time, traceback
import z3
import ir, sym
from sym import *
from ir import Unsupported

class Registry:
    def __init__(self):
        self.views = {}
        self.contracts = {}
        self.nonneg = set()
        self.known_fams = set()

    def view(self, name, nargs=1, sort='int', isptr=False, nonneg=False):
        self.views[name] = View(name, nargs, sort, isptr)
        if nonneg:
            self.nonneg.add(name)

REG = Registry()
REG.view('CAP', 1)

class Contract:
    def __init__(self, fname, gen, **kw):
        self.fname, self.gen = fname, gen
        self.kw = kw

def contract(*names, **kw):
    def deco(g):
        for n in names:
            REG.contracts[n] = Contract(n, g, **kw)
        return g
    return deco

class SV:
    """read access to a program state for specifications"""

    def __init__(self, ex, st):
        self.ex, self.st = ex, st

    def __getattr__(self, name):
        v = REG.views.get(name)
        if v is None:
            raise AttributeError(name)
        conc = self.ex.layer.get(name)
        if conc is not None:
            return lambda *a: conc(self, *[iv(x) for x in a])

        def f(*a):
            M = self.ex.getm(self.st, ('G', name))
            for x in a:
                M = self.ex.sel(M, iv(x))
            return M
        return f

    def row(self, name, o):
        M = self.ex.getm(self.st, ('G', name))
        return self.ex.sel(M, iv(o))

    def fld(self, o, off, ty):
        return self.ex.sel(self.ex.getm(self.st, ('F', off, ty)), iv(o))

    def felem(self, o, off, i, ty):
        return self.ex.sel(self.ex.sel(self.ex.getm(self.st, ('FE', off, ty)), iv(o)), iv(i))

    def elem(self, o, i, ty):
        return self.ex.sel(self.arr(o, ty), iv(i))

    def arr(self, o, ty):
        return self.ex.sel(self.ex.getm(self.st, ('E', ty)), iv(o))

    def at(self, p, i, ty):
        """element i of the array pointed to by argument p"""
        if not isinstance(p, P):
            p = P(p)
        if isinstance(i, int) and i == 0:
            q = p
        else:
            q = self.ex.addidx(p, {'double': ('double',), 'ptr': ('ptr',)}.get(ty) or ('i', int(ty[1:])), i)
        fam, obj, idx = self.ex.resolve(self.st, q, ty)
        M = self.ex.getm(self.st, fam)
        v = self.ex.sel(M, iv(obj))
        if idx is not None:
            v = self.ex.sel(v, iv(idx))
        return v

    @property
    def next(self):
        return self.st.next

class NewObj:
    pass

NEW = NewObj()
class ANY:
    """as a modified object: any object, provided the condition (over the pre-state) holds"""
    def __init__(self, cond):
        self.cond = cond

FRESH = NewObj()      # as a modified object: any object the function allocates
def has_ite(x):
    return x.decl().kind() == z3.Z3_OP_ITE or any(has_ite(y) for y in x.children())

class Ctx:
    def __init__(self, ex, mode, st, args, silent=False):
        self.ex, self.mode = ex, mode
        self.st = st
        self.args = args
        self.pre = SV(ex, st.fork() if mode == 'call' else st)
        self.post = None
        self.mods = []
        self.res = None
        self.silent = silent
        self.newres = None
        self.name = None
        self.nreq = 0
        self.enses = []
        self.indirect = {}

    @property
    def verifying(self):
        return self.mode == 'verify'

    def req(self, label, f=None):
        if f is None:
            label, f = 'req%d' % self.nreq, label
        self.nreq += 1
        if self.silent:
            return
        if self.mode == 'verify':
            self.st.add(iv(f))
        else:
            self.ex.oblige(self.st, 'pre:%s:%s' % (self.name, label), iv(f))
            self.st.add(iv(f))

    def assume(self, f, why):
        """separation / representation assumption, only inside the verified function"""
        if self.mode == 'verify' and not self.silent:
            self.st.add(iv(f))
            self.ex.assumed.add(why)

    def ghost(self, f):
        """definition of a ghost constant (conservative: the constant occurs nowhere else)"""
        if self.mode == 'verify' and not self.silent:
            self.st.add(iv(f))

    def lemma(self, *fs):
        """background axioms only this function needs"""
        if self.mode == 'verify' and not self.silent:
            for f in fs:
                self.st.add(f)

    def term(self, *es):
        """mention a term so that the axioms are instantiated on it (TERM is an always-true predicate)"""
        for e in es:
            self.st.add(TERM(iv(e)))

    def mod(self, what, *keys):
        for k in keys or (None,):
            if k is FRESH and self.mode != 'call':
                continue
            self.mods.append((what, k))

    def owns(self, *objs):
        """concrete footprint: these objects may be written (fields and elements)"""
        for o in objs:
            self.mods.append(('*', o))

    def new(self):
        """the function returns a newly allocated object"""
        if self.mode == 'call':
            if self.newres is None:
                self.newres = self.st.next
                n = self.ex.fresh('NEXT')
                self.st.add(n > self.st.next)
                self.st.next = n
                self.st.fresh.append(self.newres)
            return self.newres
        return NEW

    def maybe_new(self):
        """returns NULL or a new object"""
        if self.mode == 'call':
            if self.newres is None:
                o = self.st.next
                b = self.ex.fresh('isnull', B)
                self.newres = z3.If(b, z3.IntVal(0), o)
                n = self.ex.fresh('NEXT')
                self.st.add(n > o)
                self.st.next = n
            return self.newres
        return NEW

    def allocates(self):
        """may allocate objects that are not returned"""
        if self.mode == 'call':
            n = self.ex.fresh('NEXT')
            self.st.add(n >= self.st.next)
            self.st.next = n

    def ens(self, label, f):
        self.enses.append((label, iv(f)))

    def forall(self, n, f, pat=None):
        vs = z3.Ints(' '.join('q%d' % i for i in range(n)))
        vs = [self.ex.fresh('q') for _ in range(n)] if False else vs
        b = f(*vs)
        kw = {}
        if pat is not None:
            p = pat(*vs)
            kw['patterns'] = p if isinstance(p, list) else [p]
        try:
            return z3.ForAll(vs, b, **kw)
        except z3.Z3Exception:
            return z3.ForAll(vs, b)

    def inv(self, hint):
        if self.mode == 'verify' and not self.silent:
            self.ex.hints.append(hint)

    def cell(self, o):
        if self.mode == 'verify' and not self.silent:
            self.ex.cells.add(o)

    def nonull(self, o):
        self.req('nonnull', iv(o) > 0)

    def callback(self, argobj, fn):
        """meaning of calls through a function-pointer argument"""
        if self.mode == 'verify':
            self.ex.callbacks[iv(argobj).get_id()] = fn

def unwrap(ty, v):
    if isinstance(v, P):
        return v.obj if v.path is None else v
    return v

KEYF = z3.Function('KEYF', I, I)
NORETURN = {'exit', 'abort', '_exit', '__assert_fail', 'MPI_Abort'}
NOEFFECT = {'printf', 'fprintf', 'puts', 'fputs', 'fflush', 'putchar', 'fputc', 'fwrite', 'perror', 'sprintf', 'snprintf', 'strcpy', 'strncpy', 'strcat'}

class Exec2(Exec):
    layer = {}
    callbacks = None
    silent_writes = ('sprintf', 'snprintf', 'strcpy', 'strncpy', 'strcat')

    def view(self, st):
        return SV(self, st)

    def do_call(self, st, name, vals, rty, args):
        c = REG.contracts.get(name)
        if c is not None:
            return self.call_contract(st, c, vals, rty)
        base = name
        if base in NORETURN:
            raise Abort()
        if base == 'MSTK_Report':
            self.used_lib.add(base)
            t = vals[2]
            if isz(t):
                s = z3.simplify(t)
                t = s.as_long() if z3.is_int_value(s) else None
            if t == 3:
                if self.contract.kw.get('nofatal'):
                    self.oblige(st, 'safe:fatal-report', z3.BoolVal(False))
                raise Abort()
            if t is None:
                raise Unsupported('MSTK_Report with unknown severity')
            return None
        m = getattr(self, 'lib_' + base.replace('.', '_'), None)
        if m is None and base.startswith('llvm.'):
            m = getattr(self, 'lib_' + '_'.join(base.split('.')[:2]), None)
        if m is not None:
            self.used_lib.add(base)
            return m(st, vals, rty)
        if base in NOEFFECT:
            self.used_lib.add(base)
            return self.fresh('lib') if rty[0] == 'i' else (P(self.fresh('lib')) if rty[0] == 'ptr' else None)
        raise Unsupported('call to %s (no contract, no model, no body)' % name)

    def call_contract(self, st, c, vals, rty):
        self.used_contracts.add(c.fname)
        st0 = st.fork()
        x = Ctx(self, 'call', st, vals)
        x.name = c.fname
        g = c.gen(x, *[unwrap(None, v) for v in vals])
        next(g)
        # modified state
        nx0 = st0.next
        for what, k in x.mods:
            if z3.is_expr(k) and has_ite(k) and not self.is_fresh_since(z3.simplify(k), z3.Int('NEXT!0')):
                k = z3.simplify(k)
                if has_ite(k):
                    kk = self.fresh('key')
                    st.add(kk == k)
                    k = kk
            if what == '*':
                # every known concrete family at object k
                fams = [f for f in set(st.mem) | set(self.init) if f[0] in ('F', 'FE', 'E')]
            elif isinstance(what, str):
                fams = [('G', what)]
            else:
                fams = [what]
            for fam in fams:
                if isinstance(fam[1], str) and fam[0] == 'G' and self.layer.get(fam[1]) is not None:
                    if hasattr(self.layer[fam[1]], 'fam'):
                        fam = self.layer[fam[1]].fam
                    else:
                        raise Unsupported('callee modifies a view that is concrete here')
                M = self.getm(st, fam)
                if k is FRESH:
                    N = self.fresh('C_' + '_'.join(str(y) for y in fam), M.sort())
                    st.mem[fam] = N
                    for f in self.base_facts(fam, N, st.next):
                        st.add(f)
                    o = z3.Int('o')
                    st.add(z3.ForAll([o], z3.Implies(o < x.pre.next, N[o] == M[o]), patterns=[N[o]]))
                    w = self.fresh('any')
                    st.add(w >= x.pre.next)
                    self.logwrite(st, fam, w, check=False)
                elif k is None or isinstance(k, ANY):
                    N = self.fresh('C_' + '_'.join(str(y) for y in fam), M.sort())
                    st.mem[fam] = N
                    for f in self.base_facts(fam, N, st.next):
                        st.add(f)
                    w = self.fresh('any')
                    if isinstance(k, ANY):
                        st.add(z3.Or(iv(k.cond), N == M))
                        st.add(z3.Or(iv(k.cond), w == 0))
                    self.logwrite(st, fam, w)
                else:
                    ks = iv(k)
                    N = self.fresh('c_' + '_'.join(str(y) for y in fam), M.sort().range())
                    st.mem[fam] = z3.Store(M, ks, N)
                    if self.fam_isptr(fam):
                        if z3.is_int(N):
                            st.add(z3.And(N >= 0, N < st.next))
                        elif z3.is_array(N) and z3.is_int(N[z3.IntVal(0)]):
                            i = z3.Int('i')
                            st.add(z3.ForAll([i], z3.And(N[i] >= 0, N[i] < st.next), patterns=[N[i]]))
                    elif fam[0] == 'G' and fam[1] in REG.nonneg and z3.is_int(N):
                        st.add(N >= 0)
                    self.logwrite(st, fam, k)
        if not st.next.eq(nx0):
            # the callee allocated: the pointers stored in the families it left alone are still pointers to existing objects
            for fam in sorted(set(st.mem) | set(self.init), key=str):
                if self.fam_isptr(fam):
                    M = self.getm(st, fam)
                    if M.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                        continue
                    for f in self.base_facts(fam, M, st.next):
                        st.add(f)
        x.post = SV(self, st)
        r = None
        if rty[0] != 'void':
            if x.newres is not None:
                r = x.newres
            elif rty[0] == 'ptr':
                r = self.fresh('r_' + c.fname)
                st.add(z3.And(r >= 0, r < st.next))
            elif rty[0] in ('double', 'float'):
                r = self.fresh('r_' + c.fname, R)
            elif self.bv:
                r = self.fresh('r_' + c.fname, z3.BitVecSort(rty[1]))
            else:
                r = self.fresh('r_' + c.fname)
        x.res = r
        try:
            next(g)
        except StopIteration:
            pass
        for lab, f in x.enses:
            st.add(f)
            # result defined by an equation: use the definition directly
        if r is not None and isz(r) and x.newres is None:
            for lab, f in x.enses:
                if z3.is_eq(f) and f.arg(0).eq(r) and not has_const(f.arg(1), r):
                    r = f.arg(1)
                    break
        if rty[0] == 'ptr':
            s = z3.simplify(r) if isz(r) else r
            if isz(s) and z3.is_int_value(s):
                s = s.as_long()
                return P(s)
            return P(r)
        return r

    def contract_indirect(self, st, fp, vals, rty):
        o = iv(fp.obj)
        for k, fn in (self.callbacks or {}).items():
            if z3.simplify(o).get_id() == k or o.get_id() == k:
                return fn(self, st, vals)
        # symbolic function pointer over known functions: case split
        for i, n in sorted(self.fnids.items()):
            pass
        raise Unsupported('call through unknown function pointer')

    # ---- C library
    def lib_malloc(self, st, v, rty):
        o = st.next
        st.next = z3.simplify(st.next + 1)
        st.fresh.append(o)
        n = v[0]
        if not (self.bv):
            M = self.getm(st, ('G', 'CAP'))
            st.mem[('G', 'CAP')] = z3.Store(M, o, iv(n))
        return P(o)

    def lib_calloc(self, st, v, rty):
        if self.bv:
            p = self.lib_malloc(st, [0], rty)
        else:
            n = v[0] * v[1] if not (isz(v[0]) and isz(v[1])) else self.fresh('n')
            p = self.lib_malloc(st, [n], rty)
        self.memop(st, ('zero', p.obj))
        return p

    def lib_realloc(self, st, v, rty):
        p = v[0]
        if p.path is not None:
            raise Unsupported('realloc of interior pointer')
        q = self.lib_malloc(st, [v[1]], rty)
        self.memop(st, ('copyall', q.obj, p.obj))
        return q

    lib_MSTK_malloc = lib_malloc
    lib_MSTK_calloc = lib_calloc
    lib_MSTK_realloc = lib_realloc

    def lib_free(self, st, v, rty):
        p = v[0]
        if p.path is not None:
            self.oblige(st, 'safe:free-interior', z3.BoolVal(False))
        return None

    lib_MSTK_free = lib_free

    def ppath(self, p, sz=None):
        if p.path is None:
            return None, 0
        if p.path[0] == 'E':
            return ('E', p.path[1]), p.path[2]
        if p.path[0] == 'FE':
            return ('FE', p.path[1], p.path[2]), p.path[3]
        raise Unsupported('block copy of fields')

    def lib_memcpy(self, st, v, rty):
        d, s, n = v[0], v[1], v[2]
        df, di = self.ppath(d)
        sf, si = self.ppath(s)
        # an unindexed pointer takes the element size of the other side
        if df is None and sf is not None and sf[0] == 'E':
            df = sf
        if df is None and sf is not None and sf[0] == 'FE':
            df = ('E', sf[2])
        if self.bounds:
            for q, f, i in ((d, df, di), (s, sf, si)):
                cap = self.capof(st, q.obj)
                if cap is not None:
                    sz = f[1] if f is not None and f[0] == 'E' else 1
                    i0 = iv(i) if f is not None else 0
                    self.oblige(st, 'safe:copy-bounds', z3.And(iv(n) >= 0, i0 * sz >= 0, i0 * sz + iv(n) <= cap))
        # make sure a typed family exists
        if df is not None and df[0] == 'E' and df[1] == 8:
            self.getm(st, ('E', 'ptr'))
        if df is None:
            self.getm(st, ('E', 'ptr'))
            self.getm(st, ('E', 'double'))
            self.getm(st, ('E', 'i32'))
        if df is not None and df[0] == 'FE':
            pass
        self.memop(st, ('move', d.obj, df, di, n, s.obj, sf, si))
        return d

    lib_memmove = lib_memcpy

    def lib_llvm_memcpy(self, st, v, rty):
        self.lib_memcpy(st, v[:3], rty)

    lib_llvm_memmove = lib_llvm_memcpy

    # qsort/bsearch over an array of pointers, with a comparator that orders by an integer key
    def _keyarr(self, st, base, what):
        f, i = self.ppath(base, 8)
        if f is not None and f != ('E', 'ptr') and f != ('E', 8) or not (f is None or not isz(i) and i == 0):
            raise Unsupported(what + ' of something else than an array of pointers')
        return self.sel(self.getm(st, ('E', 'ptr')), iv(base.obj))

    def lib_qsort(self, st, v, rty):
        base, n, sz = v[0], iv(v[1]), v[2]
        self.oblige(st, 'safe:element-size', iv(sz) == 8)
        old = self._keyarr(st, base, 'qsort')
        if self.bounds:
            cap = self.capof(st, base.obj)
            self.oblige(st, 'safe:qsort-bounds', z3.And(n >= 0, 8 * n <= (cap if cap is not None else 0)))
        N = self.fresh('qs', old.sort())
        p = self.fresh('perm', z3.ArraySort(I, I))
        q = self.fresh('rmep', z3.ArraySort(I, I))
        self.qs = (p, q)
        i, j = z3.Int('i'), z3.Int('j')
        inr = lambda x: z3.And(0 <= x, x < n)
        st.add(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(p[i]), q[p[i]] == i, N[i] == old[p[i]])), patterns=[N[i]]))
        st.add(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(q[i]), p[q[i]] == i, N[q[i]] == old[i])), patterns=[old[i]]))
        st.add(z3.ForAll([i], z3.Implies(z3.Not(inr(i)), N[i] == old[i]), patterns=[N[i]]))
        st.add(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), KEYF(N[i]) <= KEYF(N[j])), patterns=[z3.MultiPattern(N[i], N[j])]))
        st.add(z3.ForAll([i], z3.And(N[i] >= 0, N[i] < st.next), patterns=[N[i]]))
        st.mem[('E', 'ptr')] = z3.Store(self.getm(st, ('E', 'ptr')), iv(base.obj), N)
        self.logwrite(st, ('E', 'ptr'), base.obj)

    def lib_bsearch(self, st, v, rty):
        key, base, n, sz = v[0], v[1], iv(v[2]), v[3]
        self.oblige(st, 'safe:element-size', iv(sz) == 8)
        arr = self._keyarr(st, base, 'bsearch')
        if self.bounds:
            cap = self.capof(st, base.obj)
            self.oblige(st, 'safe:bsearch-bounds', z3.And(n >= 0, 8 * n <= (cap if cap is not None else 0)))
        x = self.load(st, key, ('ptr',))
        x = iv(x.obj)
        i, j, w = z3.Int('i'), z3.Int('j'), z3.Int('bs!%d_%d_%d' % (arr.get_id(), n.get_id(), x.get_id()))
        srt = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), KEYF(arr[i]) <= KEYF(arr[j])), patterns=[z3.MultiPattern(arr[i], arr[j])])
        found = z3.And(0 <= w, w < n, KEYF(arr[w]) == KEYF(x))
        t = self.decide(st, found)
        if t is None:
            raise Fork(found)
        if t:
            return P(base.obj, ('E', 8, w))
        st.add(z3.Implies(srt, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), KEYF(arr[i]) != KEYF(x)), patterns=[arr[i]])))
        return NULL

    def lib_llvm_memset(self, st, v, rty):
        d, val, n = v[0], v[1], v[2]
        if isz(val) or val != 0:
            raise Unsupported('memset non-zero')
        df, di = self.ppath(d)
        for t in ('ptr', 'double', 'i32'):
            self.getm(st, ('E', t))
        self.memop(st, ('fill', d.obj, df, di, n))

    def lib_sqrt(self, st, v, rty):
        x = self.coerce(v[0], 'double')
        r = SQRT(x)
        st.add(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        return r

    def lib_fabs(self, st, v, rty):
        x = self.coerce(v[0], 'double')
        return z3.If(x >= 0, x, -x)

    lib_llvm_fabs = lib_fabs

    def lib_abs(self, st, v, rty):
        x = v[0]
        return z3.If(iv(x) >= 0, x, -x)

    lib_llvm_abs = lib_abs

    def lib_strcmp(self, st, v, rty):
        r = self.fresh('strcmp')
        a, b = iv(v[0].obj), iv(v[1].obj)
        st.add((r == 0) == STREQ(a, b))
        return r

    def lib_strncmp(self, st, v, rty):
        return self.fresh('strncmp')

    def lib_strlen(self, st, v, rty):
        r = self.fresh('strlen')
        st.add(r >= 0)
        return r

    def lib_llvm_fmuladd(self, st, v, rty):
        a, b, c = [self.coerce(x, 'double') for x in v]
        return a * b + c

    def lib_acos(self, st, v, rty):
        return ACOS(self.coerce(v[0], 'double'))

ACOS = z3.Function('ACOS', R, R)

def has_const(e, c):
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False

# ---------------------------------------------------------------- driver
class Result:
    pass

def start_state(ex):
    st = St()
    st.env = {}
    st.mem = {}
    st.facts = []
    st.next = ex.NEXT0
    st.dec = {}
    st.writes = []
    st.trace = None
    st.fresh = []
    st.pend = []
    st.add(ex.NEXT0 > 0)
    return st

def trace_list(t):
    out = []
    while t:
        out.append(t[1])
        t = t[0]
    return out[::-1]

def verify(mod, fname, layer, timeout=10, axioms=(), budget=300, verbose=False):
    """returns a dict: status in proved|failed|undecided, with obligations"""
    t0 = time.time()
    c = REG.contracts[fname]
    res = {'function': fname, 'status': 'undecided', 'obligations': 0, 'discharged': 0, 'failed': [], 'reason': '', 'trivial': 0,
           'assumed': [], 'lib': [], 'calls': [], 'paths': 0, 'loops': 0, 'invariants': 0, 'backends': {}}
    STATS.n, STATS.t = 0, 0.0
    try:
        ex = Exec2(mod, REG, fname, c, bv=c.kw.get('bv', False), bounds=c.kw.get('bounds', False), axioms=axioms,
                   unroll=c.kw.get('unroll', 8), time_budget=budget)
        ex.layer = layer
        ex.callbacks = {}
        st = start_state(ex)
        args = []
        for ty, n in ex.fn.args:
            nm = 'arg' + n[1:]
            if ty[0] == 'ptr':
                a = P(z3.Int(nm))
                st.add(z3.And(a.obj >= 0, a.obj < ex.NEXT0))
            elif ty[0] in ('double', 'float'):
                a = z3.Const(nm, R)
            elif ex.bv:
                a = z3.BitVec(nm, ty[1])
            else:
                a = z3.Int(nm)
            st.env[n] = a
            ex.lastvals[n] = a
            args.append(a)
        x = Ctx(ex, 'verify', st, args)
        x.name = fname
        g = c.gen(x, *[unwrap(None, v) for v in args])
        next(g)
        ex.allowed = [((None if w == '*' else getattr(layer.get(w), 'fam', w) if isinstance(w, str) else w), k) for w, k in x.mods if not isinstance(k, NewObj)]
        pre = st.fork()
        ex.preview = SV(ex, pre)
        # vacuity: the precondition must not be contradictory
        r, _ = neg_check([f for f, _ in st.facts] + ex.init_facts, z3.BoolVal(False), 5, ex.axioms)
        if r == z3.unsat:
            res['status'] = 'failed'
            res['failed'].append({'label': 'vacuous-precondition', 'info': 'precondition is unsatisfiable', 'trace': []})
            return res
        rets = ex.run(st)
        res['paths'] = len(rets)
        nens = 0
        for v, s in rets:
            y = Ctx(ex, 'verify', pre, args, silent=True)
            y.name = fname
            g = c.gen(y, *[unwrap(None, a) for a in args])
            next(g)
            y.post = SV(ex, s)
            y.res = unwrap(None, v)
            y.newres = None
            try:
                next(g)
            except StopIteration:
                pass
            if any(isinstance(k, NewObj) for w, k in y.mods):
                pass
            for lab, f in y.enses:
                nens += 1
                ex.oblige(s, 'post:' + lab, f)
        # vacuity: some path to a return must not be contradictory (a contradiction on every path makes every postcondition hold)
        live = 0
        for v, s in rets:
            r, _ = neg_check([f for f, _ in s.facts] + ex.init_facts, z3.BoolVal(False), 2, ex.axioms)
            if r != z3.unsat:
                live += 1
                if not os.environ.get('ALLPATHS'):
                    break
        if os.environ.get('ALLPATHS'):
            print('   live', live, 'of', len(rets))
        if rets and not live:
            res['failed'].append({'label': 'vacuous-paths', 'info': 'every path to a return is contradictory', 'trace': []})
        if not rets and not c.kw.get('noreturn'):
            res['failed'].append({'label': 'no-return-path', 'info': 'no path reaches a return', 'trace': []})
        # discharge
        ax = list(ex.axioms)
        res['obligations'] = len(ex.obls) + ex.trivial + getattr(ex, 'ninv', 0)
        res['discharged'] = ex.trivial + getattr(ex, 'ninv', 0)
        res['trivial'] = ex.trivial
        seen = {}
        for o in ex.obls:
            if time.time() > ex.deadline:
                res['reason'] = 'time budget'
                res['timeout'] = True
                return res
            ok, how, info = discharge(o, ex, ax, timeout)
            if ok:
                res['discharged'] += 1
                res['backends'][how] = res['backends'].get(how, 0) + 1
            else:
                res['failed'].append({'label': o.label, 'info': info, 'trace': [str(t) for t in trace_list(o.trace)]})
                if len(res['failed']) > 6:
                    break
        res['loops'] = len(ex.loopinfo)
        res['invariants'] = getattr(ex, 'ninv', 0)
        res['assumed'] = sorted(ex.assumed)
        res['lib'] = sorted(ex.used_lib)
        res['calls'] = sorted(ex.used_contracts)
        res['status'] = 'failed' if res['failed'] else 'proved'
        if verbose:
            res['loopinfo'] = ex.loopinfo
    except Unsupported as e:
        res['status'] = 'undecided'
        res['reason'] = 'outside the verifier\'s reach: %s' % e
    except (z3.Z3Exception, RecursionError, KeyError, AttributeError, TypeError, IndexError) as e:
        res['status'] = 'undecided'
        res['reason'] = 'verifier error: %s: %s' % (type(e).__name__, str(e)[:200])
        res['tb'] = traceback.format_exc()
    finally:
        res['wall'] = time.time() - t0
        res['queries'] = STATS.n
        res['solver_s'] = STATS.t
    return res

def discharge(o, ex, ax, timeout):
    facts = o.facts + ex.init_facts
    # a search that has not closed after a second has usually gone astray: restart it a few times before giving it longer
    for seed in (0, 1, 2):
        t = time.time()
        r, s = neg_check(facts, o.goal, min(1, timeout), ax, seed=seed)
        if r == z3.unsat:
            return True, 'z3', ''
        if r == z3.sat or time.time() - t < 0.7:
            break
    r, s = neg_check(facts, o.goal, min(3, timeout), ax)
    if r == z3.unsat:
        return True, 'z3', ''
    why = s.reason_unknown() if r == z3.unknown else 'sat'
    if cvc5_try(s, min(5, timeout)):
        return True, 'cvc5', ''
    r2, s2 = neg_check(facts, o.goal, min(timeout, 3), ax, mbqi=True)
    if r2 == z3.unsat:
        return True, 'z3-mbqi', ''
    for seed in (1, 2, 3):
        rs, _ = neg_check(facts, o.goal, min(timeout, 4), ax, seed=seed)
        if rs == z3.unsat:
            return True, 'z3', ''
    if why == 'canceled' or why == 'timeout':
        r, s = neg_check(facts, o.goal, timeout, ax)
        if r == z3.unsat:
            return True, 'z3', ''
        if cvc5_try(s, timeout):
            return True, 'cvc5', ''
    info = 'z3: %s; z3-mbqi: %s; cvc5: not discharged' % (why, r2)
    try:
        m = (s2 if r2 == z3.sat else s).model()
        ds = []
        for d in m.decls():
            if d.arity() == 0 and z3.is_int(d()) and (d.name().startswith('arg') or d.name().startswith('phi') or d.name() == 'NEXT0'):
                ds.append('%s=%s' % (d.name(), m[d]))
        info += '; candidate model: ' + ', '.join(sorted(ds)[:30])
    except z3.Z3Exception:
        pass
    info += '; goal: ' + str(z3.simplify(o.goal))[:600]
    return False, None, info

def cvc5_try(s, timeout):
    import subprocess, tempfile
    try:
        txt = '(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n'
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        t = time.time()
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 5)
        STATS.t += time.time() - t
        STATS.n += 1
        return p.stdout.strip().startswith('unsat')
    except Exception:
        return False
    finally:
        try:
            os.unlink(f.name)
        except Exception:
            pass

sym.Exec.second_opinion = staticmethod(cvc5_try)
