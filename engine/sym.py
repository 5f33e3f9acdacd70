"""Path-based verification-condition generator for LLVM IR, with loop-invariant
inference (Houdini over candidate formulas) and modular calls through contracts."""
import math
import os, re, time
from fractions import Fraction
import z3
z3.set_param("warning", False)
from ir import Unsupported

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()

DBGC = os.environ.get('DBGC')

class Abort(Exception):
    pass

class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond

class P:
    """pointer value: object id + path inside the object"""
    __slots__ = ('obj', 'path')

    def __init__(self, obj, path=None):
        self.obj, self.path = obj, path

    def __repr__(self):
        return 'P(%s,%s)' % (self.obj, self.path)

NULL = P(0)

def isz(x):
    return isinstance(x, z3.ExprRef)

def iv(x):
    """python value -> z3"""
    if isz(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, P):
        if x.path is not None:
            raise Unsupported('interior pointer used as a value')
        return iv(x.obj)
    raise Unsupported('value %r' % (x,))

def has_quant(e, cache={}):
    k = e.get_id()
    r = cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    st = [e]
    seen = set()
    res = False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        st.extend(x.children())
    cache[k] = (e, res)
    return res

def consts_of(e):
    st = [e]
    seen = set()
    out = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return out

# ---------------------------------------------------------------- theories
POW2 = z3.Function('POW2', I, I)
BIT = z3.Function('BIT', I, I, I)
ANDF = z3.Function('ANDF', I, I, I)
ORF = z3.Function('ORF', I, I, I)
XORF = z3.Function('XORF', I, I, I)
SHLF = z3.Function('SHLF', I, I, I)
SHRF = z3.Function('SHRF', I, I, I)
NOTF = z3.Function('NOTF', I, I)
MODF = z3.Function('MODF', I, I, I)
MULF = z3.Function('MULF', I, I, I)
AII = z3.ArraySort(I, I)
CNT = z3.Function('CNT', AII, I, I)
SEL = z3.Function('SEL', AII, I, I)
GAP = z3.Function('GAP', AII, I, I)
TERM = z3.Function('TERM', I, B)
STREQ = z3.Function('STREQ', I, I, B)
SQRT = z3.Function('SQRT', R, R)

RBIT = z3.Function('RBIT', AII, I, I)
def _ax_bits():
    x, y, k, i = z3.Ints('x y k i')
    a = z3.Const('a', AII)
    FA = z3.ForAll
    return [
        FA([x, k], z3.And(BIT(x, k) >= 0, BIT(x, k) <= 1), patterns=[BIT(x, k)]),
        FA([x, y, k], BIT(ANDF(x, y), k) == BIT(x, k) * BIT(y, k) if False else
           BIT(ANDF(x, y), k) == z3.If(z3.And(BIT(x, k) == 1, BIT(y, k) == 1), 1, 0), patterns=[BIT(ANDF(x, y), k)]),
        FA([x, y, k], BIT(ORF(x, y), k) == z3.If(z3.Or(BIT(x, k) == 1, BIT(y, k) == 1), 1, 0), patterns=[BIT(ORF(x, y), k)]),
        FA([x, y, k], BIT(XORF(x, y), k) == z3.If(BIT(x, k) != BIT(y, k), 1, 0), patterns=[BIT(XORF(x, y), k)]),
        FA([x, y], z3.Implies(z3.And(x >= 0, x <= 1, y >= 0, y <= 1), XORF(x, y) == z3.If(x != y, 1, 0)), patterns=[XORF(x, y)]),
        FA([x, y], z3.Implies(z3.And(x >= 0, x <= 1, y >= 0, y <= 1), ANDF(x, y) == z3.If(z3.And(x == 1, y == 1), 1, 0)), patterns=[ANDF(x, y)]),
        FA([x, y], z3.Implies(z3.And(x >= 0, x <= 1, y >= 0, y <= 1), ORF(x, y) == z3.If(z3.Or(x == 1, y == 1), 1, 0)), patterns=[ORF(x, y)]),
        FA([x, k], z3.Implies(k >= 0, z3.And(SHLF(1, k) > 0, ANDF(x, SHLF(1, k)) == z3.If(BIT(x, k) == 1, SHLF(1, k), 0))), patterns=[ANDF(x, SHLF(1, k))]),
        FA([x, i, k], z3.Implies(z3.And(i >= 0, k >= 0), BIT(SHLF(x, i), k) == z3.If(k >= i, BIT(x, k - i), 0)), patterns=[BIT(SHLF(x, i), k)]),
        FA([x, i, k], z3.Implies(z3.And(i >= 0, k >= 0), BIT(SHRF(x, i), k) == BIT(x, k + i)), patterns=[BIT(SHRF(x, i), k)]),
        FA([x, k], z3.Implies(k >= 0, BIT(NOTF(x), k) == 1 - BIT(x, k)), patterns=[BIT(NOTF(x), k)]),
        FA([k], z3.Implies(k >= 0, BIT(0, k) == 0), patterns=[BIT(0, k)]),
        FA([k], z3.Implies(k >= 0, BIT(1, k) == z3.If(k == 0, 1, 0)), patterns=[BIT(1, k)]),
        FA([k], z3.Implies(k >= 0, BIT(-1, k) == 1), patterns=[BIT(-1, k)]),
        FA([x], z3.Implies(z3.And(x >= 0, x <= 1), BIT(x, 0) == x), patterns=[BIT(x, 0)]),
        FA([x, k], z3.Implies(z3.And(x >= 0, x <= 1, k >= 1), BIT(x, k) == 0), patterns=[BIT(x, k)]),
        # RBIT: bit q of an array of 32-bit words
        FA([a, k], z3.And(RBIT(a, k) >= 0, RBIT(a, k) <= 1), patterns=[RBIT(a, k)]),
        FA([a, k], RBIT(a, k) == BIT(a[k / 32], k % 32), patterns=[RBIT(a, k)]),
        FA([a, i, x, k], RBIT(z3.Store(a, i, x), k) == z3.If(k / 32 == i, BIT(x, k % 32), RBIT(a, k)), patterns=[RBIT(z3.Store(a, i, x), k)]),
    ]

def _ax_pow2():
    x, y = z3.Ints('x y')
    out = [POW2(i) == 2 ** i for i in range(0, 32)]
    out.append(z3.ForAll([x], z3.Implies(x >= 0, POW2(x) >= x + 1), patterns=[POW2(x)]))
    out.append(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, x < y), 2 * POW2(x) <= POW2(y)), patterns=[z3.MultiPattern(POW2(x), POW2(y))]))
    out.append(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, y == x + 1), POW2(y) == 2 * POW2(x)), patterns=[z3.MultiPattern(POW2(x), POW2(y))]))
    return out

def _ax_cnt():
    a = z3.Const('a', AII)
    b = z3.Const('b', AII)
    k, j, v, i = z3.Ints('k j v i')
    FA = z3.ForAll
    nz = lambda e: z3.If(e != 0, 1, 0)
    return [
        FA([a], CNT(a, 0) == 0, patterns=[CNT(a, 0)]),
        FA([a, k], z3.Implies(k >= 0, z3.And(CNT(a, k) >= 0, CNT(a, k) <= k)), patterns=[CNT(a, k)]),
        FA([a, k], z3.Implies(k <= 0, CNT(a, k) == 0), patterns=[CNT(a, k)]),
        FA([a, k], z3.Implies(k >= 0, CNT(a, k + 1) == CNT(a, k) + nz(a[k])), patterns=[z3.MultiPattern(a[k], CNT(a, k)), CNT(a, k + 1)]),
        FA([a, j, k], z3.Implies(z3.And(0 <= j, j <= k), z3.And(CNT(a, j) <= CNT(a, k), CNT(a, k) <= CNT(a, j) + k - j)),
           patterns=[z3.MultiPattern(CNT(a, j), CNT(a, k))]),
        FA([a, j, k], z3.Implies(z3.And(0 <= j, j < k, a[j] != 0), CNT(a, j) + 1 <= CNT(a, k)),
           patterns=[z3.MultiPattern(CNT(a, k), a[j], CNT(a, j))]),
        FA([a, j, v, k], z3.Implies(z3.And(0 <= j, 0 <= k), CNT(z3.Store(a, j, v), k) == CNT(a, k) + z3.If(j < k, nz(v) - nz(a[j]), 0)),
           patterns=[CNT(z3.Store(a, j, v), k)]),
        # selection
        FA([a, i, k], z3.Implies(z3.And(0 <= i, 0 <= k, i < CNT(a, k)),
                                 z3.And(0 <= SEL(a, i), SEL(a, i) < k, a[SEL(a, i)] != 0, CNT(a, SEL(a, i)) == i)),
           patterns=[z3.MultiPattern(SEL(a, i), CNT(a, k))]),
        FA([a, j], z3.Implies(z3.And(0 <= j, a[j] != 0), SEL(a, CNT(a, j)) == j), patterns=[z3.MultiPattern(a[j], CNT(a, j))]),
    ]

_a, _k, _i = z3.Const('a', AII), z3.Int('k'), z3.Int('i')
FIRSTZ = z3.Function('FIRSTZ', AII, I, I)
# a prefix without blanks is counted fully, and conversely
AX_CNTFULL = [z3.ForAll([_a, _k, _i], z3.Implies(z3.And(0 <= _i, _i < _k, CNT(_a, _k) == _k), _a[_i] != 0), patterns=[z3.MultiPattern(CNT(_a, _k), _a[_i])]),
              z3.ForAll([_a, _k], z3.Implies(z3.And(_k >= 0, CNT(_a, _k) != _k), z3.And(0 <= FIRSTZ(_a, _k), FIRSTZ(_a, _k) < _k, _a[FIRSTZ(_a, _k)] == 0)), patterns=[CNT(_a, _k)])]
AX_BITS = _ax_bits()
AX_POW2 = _ax_pow2()
AX_CNT = _ax_cnt()

# ---------------------------------------------------------------- solver access
def linreal(v):
    """a real term that is (integer term)/d -> (integer term, d)"""
    def go(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return e.arg(0), 1
        if z3.is_rational_value(e):
            return z3.IntVal(e.numerator_as_long()), e.denominator_as_long()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            xs = [go(a) for a in e.children()]
            if any(x is None for x in xs):
                return None
            d = 1
            for _, q in xs:
                d = d * q // math.gcd(d, q)
            t = None
            for n, q in xs:
                n = n * (d // q) if d != q else n
                t = n if t is None else (t + n if k == z3.Z3_OP_ADD else t - n)
            return t, d
        if k == z3.Z3_OP_MUL and e.num_args() == 2:
            a, b = e.arg(0), e.arg(1)
            if z3.is_rational_value(b):
                a, b = b, a
            if z3.is_rational_value(a):
                y = go(b)
                if y is None:
                    return None
                n, q = y
                return z3.simplify(n * a.numerator_as_long()), q * a.denominator_as_long()
        if k == z3.Z3_OP_DIV and z3.is_rational_value(e.arg(1)) and e.arg(1).denominator_as_long() == 1 and e.arg(1).numerator_as_long() > 0:
            y = go(e.arg(0))
            return None if y is None else (y[0], y[1] * e.arg(1).numerator_as_long())
        return None
    try:
        return go(z3.simplify(v))
    except z3.Z3Exception:
        return None

class Stats:
    def __init__(self):
        self.n = 0
        self.t = 0.0
        self.byback = {}

STATS = Stats()

def _mk(timeout, mbqi=False, relevancy=2, seed=0):
    s = z3.SimpleSolver()
    if seed:
        s.set('random_seed', seed)
        s.set('smt.phase_selection', 5)
    s.set('timeout', int(timeout * 1000))
    s.set('auto_config', False)
    s.set('smt.mbqi', mbqi)
    s.set('smt.relevancy', relevancy)
    return s

def neg_check(facts, goal, timeout=10, axioms=(), mbqi=False, seed=0):
    """z3 result for  facts /\\ not goal"""
    # E-matching with relevancy 2 and 0 fail on different goals: try both
    for relevancy in (2, 0):
        s = _mk(timeout, mbqi, relevancy, seed)
        for f in axioms:
            s.add(f)
        for f in facts:
            s.add(f)
        s.add(z3.Not(goal))
        t = time.time()
        r = s.check()
        t = time.time() - t
        STATS.n += 1
        STATS.t += t
        if r != z3.unknown or t > 0.7 * timeout or mbqi:
            break
    return r, s

# ---------------------------------------------------------------- state
class St:
    __slots__ = ('env', 'mem', 'facts', 'next', 'dec', 'writes', 'trace', 'fresh', 'pend')

    def fork(self):
        s = St()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.facts = list(self.facts)
        s.next = self.next
        s.dec = dict(self.dec)
        s.writes = self.writes
        s.trace = self.trace
        s.fresh = list(self.fresh)
        s.pend = list(self.pend)
        return s

    def add(self, f, tag=None):
        if f is True:
            return
        f = iv(f)
        if tag is None:
            if z3.is_and(f):
                for x in f.children():
                    self.add(x)
                return
            if z3.is_true(f):
                return
        self.facts.append((f, tag))

class Obl:
    __slots__ = ('label', 'facts', 'goal', 'trace', 'status', 'backend', 'time', 'info')

    def __init__(self, label, facts, goal, trace):
        self.label, self.facts, self.goal, self.trace = label, facts, goal, trace
        self.status = None
        self.backend = None
        self.time = 0
        self.info = ''

TYS = {'ptr': I, 'double': R, 'float': R}

def tykey(ty):
    if ty[0] == 'i':
        return 'i%d' % ty[1]
    return ty[0]

def tsize(tk):
    return {'ptr': 8, 'double': 8, 'float': 4, 'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}[tk]

class View:
    """named abstraction of an object's state.  nargs includes the object key."""

    def __init__(self, name, nargs, sort='int', isptr=False):
        self.name, self.nargs, self.sort, self.isptr = name, nargs, sort, isptr
        self.concrete = None

class Exec:
    maxpaths = 6000

    def __init__(self, mod, reg, fname, contract, bv=False, bounds=False, axioms=(), unroll=8, time_budget=300):
        self.mod, self.reg, self.fname = mod, reg, fname
        self.fn = mod.fn(fname)
        self.contract = contract
        self.bv = bv
        self.bounds = bounds
        self.axioms = list(axioms)
        self.unroll = unroll
        self.cnt = 0
        self.init = {}
        self.base_next = {}
        self.ids = {}
        self.obls = []
        self.assumed = set()
        self.deadline = time.time() + time_budget
        self.allowed = None       # frame: list of (fam|None, key|None)
        self.hints = []
        self.paths = 0
        self.fnids = {}
        self.constglob = {}
        self.loopinfo = []
        self.loopcalls = {}
        self.addrs = {}
        self._fams_scan()
        self.NEXT0 = z3.Int('NEXT0')
        self.used_lib = set()
        self.used_contracts = set()
        self.caps = {}
        self.globname = {}
        self.localset = set()
        self.cells = set()
        self.shl1 = {}
        self.lastvals = {}
        self.init_facts = []
        self.preview = None

    # ----- naming
    def fresh(self, name, sort=I):
        self.cnt += 1
        return z3.Const('%s!%d' % (name, self.cnt), sort)

    def ident(self, key):
        if key not in self.ids:
            self.ids[key] = -(len(self.ids) + 1)
        return self.ids[key]

    def _fams_scan(self):
        self.fields = set()
        for b in self.fn.order:
            for i in self.fn.blocks[b]:
                if i.op == 'getelementptr':
                    pass

    # ----- sorts
    def sort_of(self, tk):
        if tk in TYS:
            return TYS[tk]
        if self.bv and tk != 'i1':
            return z3.BitVecSort(int(tk[1:]))
        if tk == 'i1':
            return I
        return I

    def fam_sort(self, fam):
        k = fam[0]
        if k == 'F':
            return z3.ArraySort(I, self.sort_of(fam[2]))
        if k in ('FE', 'E', 'ES'):
            return z3.ArraySort(I, z3.ArraySort(I, self.sort_of(fam[-1])))
        if k == 'G':
            v = self.reg.views[fam[1]]
            s = {'int': I, 'real': R, 'bool': B, 'seq': I}[v.sort]
            for _ in range(v.nargs):
                s = z3.ArraySort(I, s)
            return s
        raise Unsupported('family %r' % (fam,))

    def fam_isptr(self, fam):
        if fam[0] == 'G':
            return self.reg.views[fam[1]].isptr
        return fam[-1] == 'ptr'

    def base_facts(self, fam, M, nxt):
        """well-formedness of an arbitrary memory version"""
        out = []
        if self.fam_isptr(fam):
            lo = 0
            if fam[0] == 'F' or (fam[0] == 'G' and self.reg.views[fam[1]].nargs == 1):
                o = z3.Int('o')
                out.append(z3.ForAll([o], z3.Implies(o < nxt, z3.And(M[o] >= lo, M[o] < nxt)), patterns=[M[o]]))
            else:
                o, i = z3.Ints('o i')
                out.append(z3.ForAll([o, i], z3.Implies(o < nxt, z3.And(M[o][i] >= lo, M[o][i] < nxt)), patterns=[M[o][i]]))
        elif fam[0] == 'G' and self.reg.views[fam[1]].sort == 'int' and fam[1] in self.reg.nonneg:
            o = z3.Int('o')
            if self.reg.views[fam[1]].nargs == 1:
                out.append(z3.ForAll([o], M[o] >= 0, patterns=[M[o]]))
        return out

    def getm(self, st, fam):
        M = st.mem.get(fam)
        if M is None:
            M = self.init.get(fam)
            if M is None:
                M = z3.Const('M_' + '_'.join(str(x) for x in fam), self.fam_sort(fam))
                self.init[fam] = M
                self.base_next[M.decl().name()] = self.NEXT0
                self.init_facts += self.base_facts(fam, M, self.NEXT0)
            for op in st.pend:
                M = self.pend_apply(st, fam, M, op)
            st.mem[fam] = M
        return M

    def pend_apply(self, st, fam, M, op):
        """effect of an allocation-level operation on one memory family"""
        if fam[0] == 'G':
            return M
        k, o = op[0], iv(op[1])
        if k == 'zero':
            z = {I: z3.IntVal(0), R: z3.RealVal(0)}.get(self.sort_of(fam[-1]))
            if z is None:
                z = z3.BitVecVal(0, self.sort_of(fam[-1]))
            if fam[0] == 'F':
                return z3.Store(M, o, z)
            return z3.Store(M, o, z3.K(I, z))
        if k == 'copyall':
            if fam[0] == 'F':
                return M
            return z3.Store(M, o, self.sel(M, iv(op[2])))
        if fam[0] not in ('E', 'FE'):
            return M
        sz = tsize(fam[-1])
        if k in ('move', 'fill'):
            dfam, doff, n = op[2], op[3], op[4]
            # op[2]: (kind, off, esize) of the destination, op[3]: element index
            def match(d):
                if d is None:
                    return fam[0] == 'E'
                if d[0] == 'E':
                    return fam[0] == 'E' and sz == d[1]
                return fam[0] == 'FE' and fam[1] == d[1] and sz == d[2]
            if not match(dfam):
                return M
            cnt = self.nbytes_div(n, sz)
            if cnt is None:
                return M
            old = self.sel(M, o)
            new = self.fresh('mv', old.sort())
            i = z3.Int('i')
            d0 = iv(doff)
            cnt = iv(cnt)
            if k == 'fill':
                st.add(z3.ForAll([i], new[i] == z3.If(z3.And(d0 <= i, i < d0 + cnt), 0, old[i]), patterns=[new[i]]))
                return z3.Store(M, o, new)
            sobj, sfam, soff = iv(op[5]), op[6], iv(op[7])
            if sfam is None or sfam[0] == 'E':
                sM = M if fam[0] == 'E' else self.getm(st, ('E', fam[-1]))
            else:
                sM = M if fam[0] == 'FE' and fam[1] == sfam[1] else self.getm(st, ('FE', sfam[1], fam[-1]))
            src = self.sel(sM, sobj)
            st.add(z3.ForAll([i], new[i] == z3.If(z3.And(d0 <= i, i < d0 + cnt), src[i - d0 + soff], old[i]), patterns=[new[i]]))
            if not src.eq(old):    # within one array the two directions would feed each other
                st.add(z3.ForAll([i], z3.Implies(z3.And(soff <= i, i < soff + cnt), new[i - soff + d0] == src[i]), patterns=[src[i]]))
            if fam == ('E', 'ptr'):
                # counting non-null entries commutes with block copy
                st.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= d0), CNT(new, i) == CNT(old, i)), patterns=[CNT(new, i)]))
                st.add(z3.ForAll([i], z3.Implies(z3.And(d0 <= i, i <= d0 + cnt),
                       CNT(new, i) == CNT(new, d0) + CNT(src, i - d0 + soff) - CNT(src, soff)), patterns=[CNT(new, i)]))
                st.add(z3.ForAll([i], z3.Implies(z3.And(d0 + cnt <= i),
                       CNT(new, i) == CNT(new, d0 + cnt) + CNT(old, i) - CNT(old, d0 + cnt)), patterns=[CNT(new, i)]))
                for x in (d0, d0 + cnt):
                    st.add(CNT(new, x) >= 0)
                    st.add(CNT(old, x) >= 0)
                st.add(CNT(src, soff) >= 0)
                st.add(CNT(src, soff + cnt) >= 0)
            return z3.Store(M, o, new)
        return M

    def nbytes_div(self, n, sz):
        if not isz(n):
            return n // sz if n % sz == 0 else None
        s = z3.simplify(n)
        if z3.is_int_value(s):
            return self.nbytes_div(s.as_long(), sz)
        # c * e  (or a sum of such)
        def div(e):
            k = e.decl().kind()
            if z3.is_int_value(e):
                return z3.IntVal(e.as_long() // sz) if e.as_long() % sz == 0 else None
            if k == z3.Z3_OP_MUL and z3.is_int_value(e.arg(0)) and e.arg(0).as_long() % sz == 0:
                r = z3.IntVal(e.arg(0).as_long() // sz)
                for c in e.children()[1:]:
                    r = r * c
                return z3.simplify(r)
            if k == z3.Z3_OP_ADD:
                rs = [div(c) for c in e.children()]
                if any(r is None for r in rs):
                    return None
                return z3.simplify(z3.Sum(*rs))
            return None
        return div(s)

    def memop(self, st, op):
        for fam in list(st.mem):
            M2 = self.pend_apply(st, fam, st.mem[fam], op)
            if M2 is not st.mem[fam]:
                st.mem[fam] = M2
                self.logwrite(st, fam, op[1], check=op[0] in ('move', 'fill'))
        st.pend.append(op)

    # ----- memory access
    def resolve(self, st, p, ty):
        """-> (fam, obj, idx or None)"""
        tk = tykey(ty) if isinstance(ty, tuple) else ty
        pa = p.path
        sz = tsize(tk)
        if pa is None:
            return ('E', tk), p.obj, 0
        if pa[0] == 'F':
            return ('F', pa[1], tk), p.obj, None
        if pa[0] == 'E':
            if pa[1] != sz:
                raise Unsupported('element size mismatch %s %s' % (pa, tk))
            return ('E', tk), p.obj, pa[2]
        if pa[0] == 'FE':
            if pa[2] != sz:
                raise Unsupported('element size mismatch %s %s' % (pa, tk))
            return ('FE', pa[1], tk), p.obj, pa[3]
        if pa[0] == 'ES':   # array of structs: (ssize, idx, off)
            return ('ES', pa[1], pa[3], tk), p.obj, pa[2]
        raise Unsupported('path %r' % (pa,))

    def check_access(self, st, fam, obj, idx, sz, what):
        if isinstance(obj, int) and obj == 0:
            self.oblige(st, 'safe:null-deref', z3.BoolVal(False))
            raise Abort()
        if isz(obj) and not self.known_nonnull(st, obj):
            self.oblige(st, 'safe:null-deref', obj != 0)
            st.add(obj != 0)
        if fam[0] == 'E' and self.bounds:
            cap = self.capof(st, obj)
            if cap is not None:
                g = z3.And(iv(idx) >= 0, (iv(idx) + 1) * sz <= cap)
                self.oblige(st, 'safe:bounds', g)
        if fam[0] in ('E', 'FE') and isinstance(obj, int) and obj < 0:
            # local / global array: static bound
            n = self.caps.get(obj)
            if n is not None:
                g = z3.And(iv(idx) >= 0, (iv(idx) + 1) * sz <= n)
                if not (isinstance(idx, int) and idx >= 0 and (idx + 1) * sz <= n):
                    self.oblige(st, 'safe:bounds', g)

    def known_nonnull(self, st, obj):
        s = z3.simplify(obj)
        if z3.is_int_value(s):
            return s.as_long() != 0
        k = ('nn', s.get_id())
        if k in st.dec:
            return True
        # NEXT0 + c
        if s.eq(self.NEXT0) or (z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ADD and any(c.eq(self.NEXT0) for c in s.children())):
            return True
        st.dec[k] = s
        return False

    def capof(self, st, obj):
        if isinstance(obj, int):
            return self.caps.get(obj)
        return self.getm(st, ('G', 'CAP'))[obj]

    def load(self, st, p, ty):
        fam, obj, idx = self.resolve(st, p, ty)
        tk = tykey(ty)
        self.check_access(st, fam, obj, idx, tsize(tk), 'load')
        # constant globals
        if isinstance(obj, int) and obj in self.constglob:
            v = self.load_const(st, obj, fam, idx, tk)
            if v is not None:
                return v
        M = self.getm(st, fam)
        o = iv(obj)
        if idx is None:
            v = self.sel(M, o)
        else:
            v = self.sel(self.sel(M, o), iv(idx))
        if fam == ('E', 'ptr') and 'LEN' in self.layer and idx is not None:
            st.add(TERM(CNT(self.sel(M, o), iv(idx))))
            st.add(TERM(CNT(self.sel(M, o), iv(idx) + 1)))
        if tk == 'ptr':
            if isz(v):
                st.add(z3.And(v < st.next, v >= -1000000))
                v2 = z3.simplify(v)
                if z3.is_int_value(v2):
                    v = v2.as_long()
            return P(v)
        if tk == 'i1':
            return v != 0
        if z3.is_int_value(v):
            return v.as_long()
        if self.bv is False and tk == 'i8':
            pass
        return v

    def sel(self, M, o):
        """select with syntactic read-over-write"""
        while True:
            if z3.is_app(M) and M.decl().kind() == z3.Z3_OP_STORE:
                k = M.arg(1)
                if k.eq(o):
                    return M.arg(2)
                d = z3.simplify(k - o)
                if z3.is_int_value(d):
                    if d.as_long() == 0:
                        return M.arg(2)
                    M = M.arg(0)
                    continue
            return z3.Select(M, o)

    def overlap(self, fam):
        out = []
        if fam[0] == 'F':
            lo, hi = fam[1], fam[1] + tsize(fam[2])
            for f in list(self.reg.known_fams | set(self.init)):
                if f != fam and f[0] == 'F' and f[1] < hi and lo < f[1] + tsize(f[2]):
                    out.append(f)
        return out

    def store(self, st, p, ty, v):
        fam, obj, idx = self.resolve(st, p, ty)
        tk = tykey(ty)
        self.check_access(st, fam, obj, idx, tsize(tk), 'store')
        self.logwrite(st, fam, obj)
        if tk == 'i1':
            v = z3.If(iv(v), 1, 0) if isz(v) else int(bool(v))
        if isinstance(v, P):
            vz = iv(v) if v.path is None else None
            if vz is None:
                raise Unsupported('store of interior pointer')
        else:
            vz = self.coerce(v, tk)
        M = self.getm(st, fam)
        o = iv(obj)
        if fam == ('E', 'ptr') and 'LEN' in self.layer and idx is not None:
            st.add(TERM(CNT(self.sel(M, o), iv(idx))))
            st.add(TERM(CNT(self.sel(M, o), iv(idx) + 1)))
        if idx is None:
            st.mem[fam] = z3.Store(M, o, vz)
        else:
            st.mem[fam] = z3.Store(M, o, z3.Store(self.sel(M, o), iv(idx), vz))
        for f in self.overlap(fam):
            if f in st.mem or f in self.init:
                M2 = self.getm(st, f)
                st.mem[f] = z3.Store(M2, o, self.fresh('ov', self.sort_of(f[2])))
                self.logwrite(st, f, obj, check=False)

    def coerce(self, v, tk):
        if self.sort_of(tk) == R and not isz(v):
            return z3.RealVal(str(v))
        if self.bv and z3.is_bv_sort(self.sort_of(tk)) and not isz(v):
            return z3.BitVecVal(v, int(tk[1:]))
        return iv(v)

    def logwrite(self, st, fam, obj, check=True):
        st.writes.append((fam, obj))
        if not check or self.allowed is None:
            return
        if isinstance(obj, int) and obj < 0:
            if obj in self.localset:
                return
        o = iv(obj)
        ds = [o >= self.NEXT0, o == 0]    # there is no object 0: a write through a null pointer fails its own obligation
        for (f, k) in self.allowed:
            if f is None or f == fam or (fam[0] == 'G' and f == fam[1]):
                if k is None:
                    return
                ds.append(iv(k.cond) if hasattr(k, 'cond') else o == iv(k))
        g = z3.simplify(z3.Or(*ds))
        if z3.is_true(g):
            return
        self.oblige(st, 'frame:%s' % (fam[1] if fam[0] == 'G' else '.'.join(str(x) for x in fam)), z3.Or(*ds))

    # ----- obligations
    def oblige(self, st, label, goal):
        goal = iv(goal)
        if z3.is_true(goal) or z3.is_true(z3.simplify(goal)):
            if self.collect:
                self.trivial += 1
            return
        if self.collect:
            if z3.is_and(goal):
                for i, x in enumerate(goal.children()):
                    self.oblige(st, label, x)
                return
            if z3.is_implies(goal) and z3.is_and(goal.arg(1)):
                for i, x in enumerate(goal.arg(1).children()):
                    self.oblige(st, label, z3.Implies(goal.arg(0), x))
                return
            self.obls.append(Obl(label, [f for f, _ in st.facts], goal, st.trace))

    collect = True
    trivial = 0

    # ----- feasibility
    def feasible(self, st, extra=None):
        s = z3.SimpleSolver()
        s.set('timeout', 300)
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        for f, _ in st.facts:
            if not has_quant(f):
                s.add(f)
        if extra is not None:
            s.add(extra)
        t = time.time()
        r = s.check()
        STATS.t += time.time() - t
        return r != z3.unsat

    # ----- operands
    def val(self, st, v, ty=None):
        k = v[0]
        if k == 'v':
            if v[1] not in st.env:
                raise Unsupported('undefined value ' + v[1])
            return st.env[v[1]]
        if k == 'c':
            if self.bv and ty is not None and ty[0] == 'i' and ty[1] > 1:
                return z3.BitVecVal(v[1], ty[1])
            return v[1]
        if k == 'null':
            return NULL
        if k == 'b':
            return v[1]
        if k == 'f':
            s = v[1]
            if s.startswith('0x'):
                import struct
                if s.startswith('0xK') or len(s) > 18:
                    raise Unsupported('float literal')
                d = struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
                if d != d or d in (float('inf'), float('-inf')):
                    raise Unsupported('nan/inf literal')
                # decimal literals of the source are read as the decimal they abbreviate
                return Fraction(repr(d))
            return Fraction(s)
        if k == 'undef':
            if ty is not None and ty[0] == 'ptr':
                return P(self.fresh('undef'))
            if ty is not None and ty[0] in ('double', 'float'):
                return self.fresh('undef', R)
            if ty == ('i', 1):
                return self.fresh('undef', B)
            if self.bv and ty is not None:
                return self.fresh('undef', z3.BitVecSort(ty[1]))
            return self.fresh('undef')
        if k == 'zero':
            return NULL if ty and ty[0] == 'ptr' else (Fraction(0) if ty and ty[0] == 'double' else 0)
        if k == 'g':
            return self.glob(st, v[1])
        if k == 'gepc':
            return self.gep(st, v[1], self.val(st, v[2], ('ptr',)), [self.val(st, x) for x in v[3]])
        raise Unsupported('operand %r' % (v,))

    def glob(self, st, name):
        if name in self.mod.ftext or name in self.mod.decls:
            o = self.ident(('fn', name))
            self.fnids[o] = name
            return P(o)
        o = self.ident(('g', name))
        if o not in self.constglob and o not in self.caps:
            const, ty, init = self.mod.ginit(name)
            try:
                self.caps[o] = self.mod.size(ty)
            except Unsupported:
                pass
            self.globname[o] = name
            if const:
                self.constglob[o] = (ty, init)
        return P(o)

    def flat(self, ty, init):
        """flatten a constant initializer into a list of scalars (ty, value)"""
        if ty[0] == 'arr':
            if init[0] == 'zero':
                return self.flat(ty[2], ('zero',)) * ty[1]
            if init[0] == 'str':
                b = []
                s = init[1]
                i = 0
                while i < len(s):
                    if s[i] == '\\':
                        b.append(int(s[i + 1:i + 3], 16))
                        i += 3
                    else:
                        b.append(ord(s[i]))
                        i += 1
                return [(('i', 8), ('c', x)) for x in b]
            if init[0] == 'agg':
                out = []
                for et, x in init[1]:
                    out += self.flat(ty[2], x)
                return out
            raise Unsupported('initializer')
        if ty[0] in ('st', 'lit'):
            raise Unsupported('struct initializer')
        return [(ty, init)]

    def load_const(self, st, obj, fam, idx, tk):
        ty, init = self.constglob[obj]
        key = ('flat', obj)
        if key not in self.addrs:
            self.addrs[key] = self.flat(ty, init)
        fl = self.addrs[key]
        if fam[0] != 'E':
            raise Unsupported('const global access')
        ix = idx
        if isz(ix):
            s = z3.simplify(ix)
            if z3.is_int_value(s):
                ix = s.as_long()
        if isz(ix):
            # fork over the table
            for k in range(len(fl)):
                d = st.dec.get(('tab', obj, ix.get_id(), k))
                if d is True:
                    ix = k
                    break
                if d is None:
                    c = ix == k
                    if not self.feasible(st, c):
                        st.dec[('tab', obj, ix.get_id(), k)] = False
                        continue
                    st.dec[('pend', c.get_id())] = ('tab', obj, ix.get_id(), k)
                    raise Fork2(c, ('tab', obj, ix.get_id(), k))
            else:
                raise Abort()
        if not (0 <= ix < len(fl)):
            raise Abort()
        t, v = fl[ix]
        if v[0] == 'zero':
            return NULL if t[0] == 'ptr' else 0
        return self.val(st, v, t)

    # ----- geps
    def gep(self, st, ty, base, idx):
        m = self.mod
        if not isinstance(base, P):
            raise Unsupported('gep on non pointer')
        i0 = idx[0]
        if self.bv and isz(i0) and z3.is_bv(i0):
            s = z3.simplify(i0)
            if not z3.is_bv_value(s):
                raise Unsupported('bv index')
            i0 = s.as_signed_long()
        idx = [i0] + idx[1:]
        for j, x in enumerate(idx):
            if isz(x) and z3.is_bv(x):
                s = z3.simplify(x)
                if not z3.is_bv_value(s):
                    raise Unsupported('bv index')
                idx[j] = s.as_signed_long()
        i0 = idx[0]
        if len(idx) == 1:
            return self.addidx(base, ty, i0)
        # aggregate walk
        pa = base.path
        cur = ty
        zero0 = isinstance(i0, int) and i0 == 0
        if ty[0] in ('st', 'lit', 'plit'):
            off0 = 0
            es = None
            if not zero0:
                es = (m.size(ty), i0)
            if pa is None:
                pass
            elif pa[0] == 'F':
                off0 = pa[1]
            elif pa[0] == 'E':
                es = (pa[1], pa[2]) if es is None else es
            elif pa[0] == 'ES':
                es = (pa[1], pa[2])
                off0 = pa[3]
            else:
                raise Unsupported('gep struct path')
            off = off0
            fe = None
            for x in idx[1:]:
                if cur[0] in ('st', 'lit', 'plit'):
                    offs, _ = m.layout(cur)
                    if fe is not None:
                        raise Unsupported('struct in embedded array')
                    cur2 = m.fields(cur)[x]
                    off += offs[x]
                    cur = cur2
                elif cur[0] == 'arr':
                    esz = m.size(cur[2])
                    fe = (esz, x) if fe is None else (esz, fe[1] * cur[1] + x)
                    cur = cur[2]
                else:
                    raise Unsupported('gep walk')
            if es is not None:
                if fe is not None:
                    raise Unsupported('array in struct array')
                return P(base.obj, ('ES', es[0], es[1], off))
            if fe is not None:
                return P(base.obj, ('FE', off, fe[0], fe[1]))
            if cur[0] == 'arr' and es is None:
                # a field that is an array of scalars: its first element
                t = cur
                while t[0] == 'arr':
                    t = t[2]
                if t[0] not in ('st', 'lit', 'plit'):
                    return P(base.obj, ('FE', off, m.size(t), 0))
            return P(base.obj, ('F', off))
        if ty[0] == 'arr':
            # arrays of scalars (possibly nested): flatten
            t = ty
            n = 1
            lin = i0
            for x in idx[1:]:
                if t[0] != 'arr':
                    raise Unsupported('gep array walk')
                lin = lin * t[1] + x if not (isinstance(lin, int) and lin == 0) else x
                t = t[2]
            # remaining inner dimensions
            while t[0] == 'arr':
                lin = lin * t[1]
                t = t[2]
            if t[0] in ('st', 'lit'):
                raise Unsupported('array of struct')
            return self.addidx(base, t, lin)
        raise Unsupported('gep')

    def addidx(self, base, ty, i):
        m = self.mod
        zero = isinstance(i, int) and i == 0
        if zero and base.path is not None:
            return base
        while ty[0] == 'arr':
            i = i * ty[1]
            ty = ty[2]
        sz = m.size(ty)
        pa = base.path
        if ty[0] in ('st', 'lit'):
            if zero:
                return base
            if pa is None:
                return P(base.obj, ('ES', sz, i, 0))
            if pa[0] == 'ES' and pa[1] == sz and pa[3] == 0:
                return P(base.obj, ('ES', sz, pa[2] + i, 0))
            raise Unsupported('struct pointer arithmetic')
        if pa is None:
            if zero:
                return base
            return P(base.obj, ('E', sz, i))
        if pa[0] == 'E':
            if pa[1] != sz:
                raise Unsupported('mixed element sizes')
            j = pa[2] + i
            if isz(j):
                s = z3.simplify(j)
                if z3.is_int_value(s) and s.as_long() == 0:
                    return P(base.obj)
            elif j == 0:
                return P(base.obj)
            return P(base.obj, ('E', sz, j))
        if pa[0] == 'FE':
            if pa[2] != sz:
                raise Unsupported('mixed element sizes')
            return P(base.obj, ('FE', pa[1], sz, pa[3] + i))
        raise Unsupported('pointer arithmetic on %r' % (pa,))

    # ----- conditions
    def decide(self, st, c):
        """truth of condition c on this path: True/False, or None"""
        if not isz(c):
            return bool(c)
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        k = ('c', s.get_id())
        if k in st.dec:
            return st.dec[k][0]
        return None

    def assume_cond(self, st, c, truth):
        s = z3.simplify(c)
        st.dec[('c', s.get_id())] = (truth, s)
        st.add(c if truth else z3.Not(c))

    # ----- arithmetic
    def as_int(self, v):
        return v

    def binop(self, st, op, ty, a, b):
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            if not isz(a) and not isz(b):
                if op == 'fdiv' and b == 0:
                    raise Unsupported('division by zero constant')
                return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[op]()
            A, Bb = self.coerce(a, 'double'), self.coerce(b, 'double')
            if op == 'fdiv':
                self.oblige_div(st, Bb)
                return A / Bb
            return {'fadd': A + Bb, 'fsub': A - Bb, 'fmul': A * Bb}[op]
        w = ty[1]
        if w == 1:
            if op == 'xor':
                if b is True:
                    return z3.Not(a) if isz(a) else (not a)
                return z3.Xor(iv(a), iv(b))
            if op == 'and':
                return z3.And(iv(a), iv(b))
            if op == 'or':
                return z3.Or(iv(a), iv(b))
            raise Unsupported('i1 ' + op)
        if self.bv:
            A = a if isz(a) else z3.BitVecVal(a, w)
            Bb = b if isz(b) else z3.BitVecVal(b, w)
            f = {'add': lambda: A + Bb, 'sub': lambda: A - Bb, 'mul': lambda: A * Bb, 'and': lambda: A & Bb, 'or': lambda: A | Bb,
                 'xor': lambda: A ^ Bb, 'shl': lambda: A << Bb, 'lshr': lambda: z3.LShR(A, Bb), 'ashr': lambda: A >> Bb,
                 'sdiv': lambda: A / Bb, 'udiv': lambda: z3.UDiv(A, Bb), 'srem': lambda: z3.SRem(A, Bb), 'urem': lambda: z3.URem(A, Bb)}
            return z3.simplify(f[op]())
        cst = lambda x: not isz(x)
        if cst(a) and cst(b):
            if op == 'add':
                return a + b
            if op == 'sub':
                return a - b
            if op == 'mul':
                return a * b
            if op in ('sdiv', 'udiv') and b != 0:
                q = abs(a) // abs(b)
                return q if (a >= 0) == (b > 0) else -q
            if op in ('srem', 'urem') and b != 0:
                r = abs(a) % abs(b)
                return r if a >= 0 else -r
            if op == 'shl':
                return a << b
            if op in ('lshr', 'ashr') and a >= 0:
                return a >> b
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
        if op == 'add':
            return z3.simplify(a + b) if False else a + b
        if op == 'sub':
            return a - b
        if op == 'mul':
            if cst(a) or cst(b):
                return a * b
            return self.nlmul(st, a, b)
        if op in ('sdiv', 'udiv'):
            if cst(b) and b > 0:
                return z3.If(a >= 0, a / b, -((-a) / b)) if op == 'sdiv' else a / b
            raise Unsupported('division by a variable')
        if op in ('srem', 'urem'):
            if cst(b) and b > 0:
                return z3.If(a >= 0, a % b, -((-a) % b)) if op == 'srem' else a % b
            A, Bb = iv(a), iv(b)
            self.oblige(st, 'safe:mod-by-zero', Bb != 0)
            r = MODF(A, Bb)
            for k in (-1, 0, 1, 2):
                if k >= 0:
                    st.add(z3.Implies(z3.And(Bb > 0, A >= k * Bb, A < (k + 1) * Bb), r == A - k * Bb))
            st.add(z3.Implies(z3.And(Bb > 0, A >= 0), z3.And(r >= 0, r < Bb)))
            return r
        if op == 'shl':
            if cst(b):
                return a * (1 << b)
            if cst(a) and a == 1:
                st.add(POW2(b) >= 1)
                self.pow2used = True
                r = POW2(b)
                self.shl1[r.get_id()] = (r, b)
                return r
            return SHLF(iv(a), iv(b))
        if op in ('lshr', 'ashr'):
            if cst(b):
                return iv(a) / (1 << b)
            return SHRF(iv(a), iv(b))
        if op == 'xor':
            if cst(b) and b == -1:
                return self.mknot(a)
            if cst(b) and b == 1:
                # x ^ 1 on {0,1}
                return z3.If(iv(a) % 2 == 0, a + 1, a - 1)
            return XORF(self.bits(a), self.bits(b))
        if op == 'and':
            if cst(a):
                a, b = b, a
            if cst(b) and 0 <= b < 1 << 16 and isz(a) and self.contract.kw.get('bits') and bin(b).count('1') <= 8:
                x, k = a, 0
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(a.arg(1)):
                    d = a.arg(1).as_long()
                    if d > 0 and d & (d - 1) == 0:
                        x, k = a.arg(0), d.bit_length() - 1
                if not (z3.is_app(x) and x.decl().eq(SHRF)):
                    t = [BIT(self.bits(x), k + j) * (1 << j) if j else BIT(self.bits(x), k) for j in range(b.bit_length()) if b >> j & 1]
                    return sum(t[1:], t[0]) if t else 0
            if cst(b):
                if isz(a) and z3.is_app(a) and a.decl().eq(SHRF) and b == 1:
                    return BIT(self.bits(a.arg(0)), a.arg(1))
                if b >= 0:
                    return self.maskand(st, a, b)
                # negative constant: clears bits of ~b
                return iv(a) - self.maskand(st, a, ~b)
            return ANDF(self.bits(a), self.bits(b))
        if op == 'or':
            d = self.disjoint(st, a, b)
            if d:
                return a + b
            return ORF(self.bits(a), self.bits(b))
        raise Unsupported(op)

    def mknot(self, a):
        return NOTF(self.bits(a))

    def bits(self, a):
        """1<<k becomes SHLF(1,k) inside the bit theory"""
        if not isz(a) and a > 1 and self.contract.kw.get('bits'):
            out = None
            for j in range(a.bit_length()):
                if a >> j & 1:
                    t = SHLF(z3.IntVal(1), z3.IntVal(j))
                    out = t if out is None else ORF(out, t)
            return out
        if isz(a) and a.get_id() in self.shl1:
            return SHLF(z3.IntVal(1), iv(self.shl1[a.get_id()][1]))
        return iv(a)

    def maskand(self, st, a, m):
        out = None
        lo = 0
        x = m
        while x:
            while not x & 1:
                x >>= 1
                lo += 1
            n = 0
            while x & 1:
                x >>= 1
                n += 1
            seg = ((iv(a) / (1 << lo)) if lo else iv(a)) % (1 << n)
            if lo:
                seg = seg * (1 << lo)
            out = seg if out is None else out + seg
            lo += n
        return 0 if out is None else out

    def disjoint(self, st, a, b):
        """a + b == a | b provable because a is a multiple of 2^k and 0 <= b < 2^k"""
        for x, y in ((a, b), (b, a)):
            k = self.pow2mult(x)
            if k and k > 0:
                s = z3.SimpleSolver()
                s.set('timeout', 500)
                for f, _ in st.facts:
                    if not has_quant(f):
                        s.add(f)
                s.add(z3.Not(z3.And(iv(y) >= 0, iv(y) < (1 << k))))
                if s.check() == z3.unsat:
                    return True
        return False

    def pow2mult(self, x):
        if not isz(x):
            if x == 0:
                return 63
            return (x & -x).bit_length() - 1
        if z3.is_int_value(x):
            return self.pow2mult(x.as_long())
        k = x.decl().kind()
        if k == z3.Z3_OP_MUL:
            return sum(self.pow2mult(c) for c in x.children())
        if k == z3.Z3_OP_ADD:
            return min(self.pow2mult(c) for c in x.children())
        if k == z3.Z3_OP_ITE:
            return min(self.pow2mult(x.arg(1)), self.pow2mult(x.arg(2)))
        return 0

    def nlmul(self, st, a, b):
        return iv(a) * iv(b)

    def oblige_div(self, st, b):
        pass

    def icmp(self, st, pr, ty, a, b):
        if ty[0] == 'ptr':
            if not (isinstance(a, P) and isinstance(b, P)):
                raise Unsupported('ptr cmp')
            if a.path is not None or b.path is not None:
                if isinstance(b.obj, int) and b.obj == 0 and b.path is None:
                    return pr == 'ne'
                if isinstance(a.obj, int) and a.obj == 0 and a.path is None:
                    return pr == 'ne'
                raise Unsupported('comparison of interior pointers')
            x, y = a.obj, b.obj
        else:
            x, y = a, b
            if ty == ('i', 1):
                r = iv(x) == iv(y)
                return r if pr == 'eq' else z3.Not(r)
        if self.bv and ty[0] == 'i':
            w = ty[1]
            A = x if isz(x) else z3.BitVecVal(x, w)
            Bb = y if isz(y) else z3.BitVecVal(y, w)
            r = {'eq': lambda: A == Bb, 'ne': lambda: A != Bb, 'slt': lambda: A < Bb, 'sle': lambda: A <= Bb, 'sgt': lambda: A > Bb,
                 'sge': lambda: A >= Bb, 'ult': lambda: z3.ULT(A, Bb), 'ule': lambda: z3.ULE(A, Bb), 'ugt': lambda: z3.UGT(A, Bb),
                 'uge': lambda: z3.UGE(A, Bb)}[pr]()
            return r
        f = {'eq': lambda p, q: p == q, 'ne': lambda p, q: p != q, 'slt': lambda p, q: p < q, 'sle': lambda p, q: p <= q,
             'sgt': lambda p, q: p > q, 'sge': lambda p, q: p >= q, 'ult': lambda p, q: p < q, 'ule': lambda p, q: p <= q,
             'ugt': lambda p, q: p > q, 'uge': lambda p, q: p >= q}[pr]
        return f(x, y)

    def fcmp(self, pr, a, b):
        if not isz(a) and not isz(b):
            A, Bb = a, b
        else:
            A, Bb = self.coerce(a, 'double'), self.coerce(b, 'double')
        f = {'oeq': lambda: A == Bb, 'one': lambda: A != Bb, 'olt': lambda: A < Bb, 'ole': lambda: A <= Bb, 'ogt': lambda: A > Bb,
             'oge': lambda: A >= Bb, 'ueq': lambda: A == Bb, 'une': lambda: A != Bb, 'ult': lambda: A < Bb, 'ule': lambda: A <= Bb,
             'ugt': lambda: A > Bb, 'uge': lambda: A >= Bb, 'ord': lambda: True, 'uno': lambda: False}
        return f[pr]()

    # ----- instructions
    def step(self, st, ins):
        op, a = ins.op, ins.a
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv'):
            st.env[ins.res] = self.binop(st, op, a[0], self.val(st, a[1], a[0]), self.val(st, a[2], a[0]))
        elif op == 'fneg':
            v = self.val(st, a[1], a[0])
            st.env[ins.res] = -v
        elif op == 'icmp':
            st.env[ins.res] = self.icmp(st, a[0], a[1], self.val(st, a[2], a[1]), self.val(st, a[3], a[1]))
        elif op == 'fcmp':
            st.env[ins.res] = self.fcmp(a[0], self.val(st, a[2], a[1]), self.val(st, a[3], a[1]))
        elif op == 'load':
            p = self.val(st, a[1], ('ptr',))
            st.env[ins.res] = self.load(st, p, a[0])
        elif op == 'store':
            v = self.val(st, a[1], a[0])
            self.store(st, self.val(st, a[2], ('ptr',)), a[0], v)
        elif op == 'alloca':
            o = self.ident(('l', ins.res))
            self.localset.add(o)
            n = self.val(st, a[1])
            if isinstance(n, int):
                try:
                    self.caps[o] = self.mod.size(a[0]) * n
                except Unsupported:
                    pass
            st.env[ins.res] = P(o)
        elif op == 'getelementptr':
            st.env[ins.res] = self.gep(st, a[0], self.val(st, a[1], ('ptr',)), [self.val(st, x) for x in a[2]])
        elif op in ('sext', 'zext', 'trunc'):
            v = self.val(st, a[1], a[0])
            if a[0] == ('i', 1):
                if self.bv:
                    w = a[2][1]
                    one = -1 if op == 'sext' else 1
                    v = z3.If(iv(v), z3.BitVecVal(one, w), z3.BitVecVal(0, w))
                elif not isz(v):
                    v = int(bool(v)) * (-1 if op == 'sext' else 1)
                else:
                    v = z3.If(v, z3.IntVal(-1 if op == 'sext' else 1), z3.IntVal(0))
            elif a[2] == ('i', 1):
                if self.bv:
                    v = z3.Extract(0, 0, v) == z3.BitVecVal(1, 1)
                else:
                    v = (v % 2 == 1) if isz(v) else bool(v & 1)
            elif self.bv:
                d = a[2][1] - a[0][1]
                if not isz(v):
                    v = z3.BitVecVal(v, a[0][1])
                v = z3.simplify(z3.SignExt(d, v) if op == 'sext' else z3.ZeroExt(d, v) if op == 'zext' else z3.Extract(a[2][1] - 1, 0, v))
            st.env[ins.res] = v
        elif op in ('sitofp', 'uitofp'):
            v = self.val(st, a[1], a[0])
            st.env[ins.res] = z3.ToReal(v) if isz(v) else Fraction(v)
        elif op in ('fpext', 'fptrunc', 'bitcast', 'freeze'):
            st.env[ins.res] = self.val(st, a[1], a[0])
        elif op in ('fptosi',):
            v = self.val(st, a[1], a[0])
            if isz(v):
                lin = linreal(v)
                if lin is not None and not self.bv:
                    n, d = lin
                    st.env[ins.res] = z3.simplify(z3.If(n >= 0, n / d, -((-n) / d))) if d != 1 else n
                else:
                    st.env[ins.res] = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            else:
                st.env[ins.res] = int(v)
        elif op == 'ptrtoint':
            v = self.val(st, a[1], a[0])
            if v.path is not None:
                raise Unsupported('ptrtoint of interior pointer')
            # addresses: an arbitrary injective function of the object, 0 for null
            st.env[ins.res] = self.addr_of(st, v.obj)
        elif op == 'select':
            c = self.val(st, a[1], ('i', 1))
            x, y = self.val(st, a[2], a[0]), self.val(st, a[3], a[0])
            d = self.decide(st, c)
            if d is not None:
                st.env[ins.res] = x if d else y
            elif isinstance(x, P):
                if x.path == y.path and x.path is None and not self.contract.kw.get('forksel'):
                    st.env[ins.res] = P(z3.If(c, iv(x.obj), iv(y.obj)))
                else:
                    raise Fork(c)
            elif a[0] == ('i', 1):
                st.env[ins.res] = z3.If(c, iv(x), iv(y))
            elif a[0][0] in ('double', 'float'):
                st.env[ins.res] = z3.If(c, self.coerce(x, 'double'), self.coerce(y, 'double'))
            elif self.bv:
                st.env[ins.res] = z3.If(c, self.coerce(x, tykey(a[0])), self.coerce(y, tykey(a[0])))
            else:
                st.env[ins.res] = z3.If(c, iv(x), iv(y))
        elif op == 'call':
            self.call(st, ins)
        else:
            raise Unsupported('instruction ' + str(ins)[:80])

    ADDR = z3.Function('ADDR', I, I)

    def addr_of(self, st, obj):
        o = iv(obj)
        r = Exec.ADDR(o)
        st.add(z3.And(r >= 0, (r == 0) == (o == 0)))
        return r

    # ----- calls
    def call(self, st, ins):
        rty, f, args = ins.a
        vals = None
        if f[0] == 'g':
            name = f[1]
        else:
            fp = self.val(st, f, ('ptr',))
            if isinstance(fp.obj, int) and fp.obj in self.fnids:
                name = self.fnids[fp.obj]
            elif isinstance(fp.obj, int) and fp.obj == 0:
                self.oblige(st, 'safe:null-function', z3.BoolVal(False))
                raise Abort()
            else:
                name = None
                for o, n in self.fnids.items():
                    if isz(fp.obj):
                        pass
                vals = [self.val(st, v, t) for t, v in args]
                r = self.contract_indirect(st, fp, vals, rty)
                if ins.res:
                    st.env[ins.res] = r
                return
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime'):
            return
        vals = [self.val(st, v, t) for t, v in args]
        if name == '__f0':
            p = vals[0]
            if p.path is None:
                r = P(p.obj, ('F', 0))
            else:
                r = p
            st.env[ins.res] = r
            return
        r = self.do_call(st, name, vals, rty, args)
        if ins.res:
            st.env[ins.res] = r

    def contract_indirect(self, st, fp, vals, rty):
        raise Unsupported('indirect call')

    # resolved in verify.py
    def do_call(self, st, name, vals, rty, args):
        raise Unsupported('call ' + name)

    # ----- region exploration
    def run(self, st):
        """explore the whole function; returns list of (retval, state)"""
        rets = []
        work = [(self.fn.entry, None, st)]
        while work:
            b, prev, s = work.pop()
            for out in self.block(b, prev, s, None):
                if out[0] == 'ret':
                    rets.append((out[1], out[2]))
                elif out[0] == 'go':
                    work.append((out[1], out[2], out[3]))
            if len(rets) + len(work) > self.maxpaths:
                raise Unsupported('too many paths')
            if time.time() > self.deadline:
                raise Unsupported('time budget')
        return rets

    def region(self, L, st, first):
        """explore the body of loop L from its header. first: header instrs already positioned
        -> (backs, exits, rets)"""
        backs, exits, rets = [], [], []
        body = self.fn.loops[L]
        work = [('hdr', L, None, st)]
        n = 0
        while work:
            kind, b, prev, s = work.pop()
            outs = self.block(b, prev, s, L if kind == 'hdr' else None, skip_phi=(kind == 'hdr'))
            for out in outs:
                if out[0] == 'ret':
                    rets.append((out[1], out[2]))
                elif out[0] == 'go':
                    if out[1] == L:
                        backs.append((out[2], out[3]))
                    elif out[1] in body:
                        work.append(('blk', out[1], out[2], out[3]))
                    else:
                        exits.append((out[1], out[2], out[3]))
            n += 1
            if n > self.maxpaths:
                raise Unsupported('too many paths in loop')
            if time.time() > self.deadline:
                raise Unsupported('time budget')
        return backs, exits, rets

    def block(self, b, prev, st, hdr, skip_phi=False):
        """execute one block; returns outcomes"""
        fn = self.fn
        if b in fn.loops and not skip_phi:
            return self.loop(b, prev, st)
        ins = fn.blocks[b]
        i = 0
        if not skip_phi:
            self.phis(st, b, prev)
        while ins[i].op == 'phi':
            i += 1
        return self.steps(b, i, st)

    def phis(self, st, b, prev):
        new = {}
        for ins in self.fn.blocks[b]:
            if ins.op != 'phi':
                break
            for v, p in ins.a[1]:
                if p == prev:
                    new[ins.res] = self.val(st, v, ins.a[0])
                    break
            else:
                raise Unsupported('phi')
        st.env.update(new)

    def steps(self, b, i, st):
        outs = []
        work = [(i, st)]
        ins = self.fn.blocks[b]
        while work:
            i, s = work.pop()
            try:
                while True:
                    x = ins[i]
                    if x.op in ('jmp', 'br', 'switch', 'ret', 'unreachable'):
                        outs += self.term(b, x, s)
                        break
                    snap = s
                    try:
                        self.step(s, x)
                        if x.res:
                            self.lastvals[x.res] = s.env[x.res]
                    except Fork as f:
                        for t in (True, False):
                            s2 = s.fork()
                            self.assume_cond(s2, f.cond, t)
                            if self.feasible(s2):
                                work.append((i, s2))
                        break
                    except Fork2 as f:
                        for t in (True, False):
                            s2 = s.fork()
                            s2.dec[f.key] = t
                            s2.add(f.cond if t else z3.Not(f.cond))
                            if self.feasible(s2):
                                work.append((i, s2))
                        break
                    i += 1
            except Abort:
                pass
        return outs

    def term(self, b, x, s):
        if x.op == 'jmp':
            return [('go', x.a[0], b, s)]
        if x.op == 'ret':
            v = None if x.a[1] is None else self.val(s, x.a[1], x.a[0])
            self.paths += 1
            return [('ret', v, s)]
        if x.op == 'unreachable':
            return []
        if x.op == 'br':
            c = self.val(s, x.a[0], ('i', 1))
            d = self.decide(s, c)
            if d is not None:
                return [('go', x.a[1] if d else x.a[2], b, s)]
            outs = []
            for t, tgt in ((True, x.a[1]), (False, x.a[2])):
                s2 = s.fork()
                self.assume_cond(s2, c, t)
                if self.feasible(s2):
                    s2.trace = (s.trace, (b, t))
                    outs.append(('go', tgt, b, s2))
            return outs
        if x.op == 'switch':
            v = self.val(s, x.a[1], x.a[0])
            if not isz(v):
                for c, t in x.a[3]:
                    if c == v:
                        return [('go', t, b, s)]
                return [('go', x.a[2], b, s)]
            outs = []
            byt = {}
            for c, t in x.a[3]:
                byt.setdefault(t, []).append(c)
            for t, cs in byt.items():
                s2 = s.fork()
                s2.add(z3.Or(*[v == c for c in cs]))
                if self.feasible(s2):
                    s2.trace = (s.trace, (b, tuple(cs)))
                    outs.append(('go', t, b, s2))
            s2 = s.fork()
            s2.add(z3.And(*[v != c for c, _ in x.a[3]]) if x.a[3] else z3.BoolVal(True))
            if self.feasible(s2):
                s2.trace = (s.trace, (b, 'default'))
                outs.append(('go', x.a[2], b, s2))
            return outs

    # ----- loops
    def loop(self, L, prev, st):
        fn = self.fn
        entry = st
        self.phis(entry, L, prev)
        trip = self.const_trip(L, entry)
        if trip is not None and trip <= self.unroll:
            return self.unrolled(L, entry, trip)
        return self.inv_loop(L, entry)

    def calls_in(self, L):
        """names of the functions called inside the loop (only used to choose which candidates to try)"""
        if L not in self.loopcalls:
            out = set()
            for b in self.fn.loops[L]:
                for i in self.fn.blocks[b]:
                    if i.op == 'call' and isinstance(i.a[1], tuple) and len(i.a[1]) > 1:
                        out.add(i.a[1][1])
            self.loopcalls[L] = out
        return self.loopcalls[L]

    def const_trip(self, L, st):
        """header of the form  phi i in [c0, i+c1] ... exit test against a constant"""
        fn = self.fn
        body = fn.loops[L]
        phis = {}
        for ins in fn.blocks[L]:
            if ins.op != 'phi':
                break
            v = st.env[ins.res]
            if isz(v) and not isinstance(v, P):
                v = z3.simplify(v)
                if z3.is_int_value(v):
                    v = v.as_long()
            if isinstance(v, int) and not isinstance(v, bool):
                phis[ins.res] = (ins, v)
        t = fn.blocks[L][-1]
        if t.op != 'br' or t.a[0][0] != 'v':
            return None
        cond = next((i for i in fn.blocks[L] if i.res == t.a[0][1]), None)
        if cond is None or cond.op != 'icmp':
            return None
        x, y = cond.a[2], cond.a[3]
        if y[0] == 'v' and x[0] in ('c',):
            x, y = y, x
        if x[0] != 'v' or x[1] not in phis:
            return None
        if y[0] == 'v':
            yv = st.env.get(y[1])
            if isz(yv) or not isinstance(yv, int):
                if isz(yv):
                    s = z3.simplify(yv) if not isinstance(yv, P) else None
                    if s is not None and z3.is_int_value(s):
                        yv = s.as_long()
                    else:
                        return None
                else:
                    return None
        elif y[0] == 'c':
            yv = y[1]
        else:
            return None
        ins, v0 = phis[x[1]]
        # step
        d = {i.res: i for b in body for i in fn.blocks[b] if i.res}
        for v, p in ins.a[1]:
            if p in body:
                if v[0] != 'v' or v[1] not in d:
                    return None
                u = d[v[1]]
                if u.op == 'add' and u.a[1] == ('v', x[1]) and u.a[2][0] == 'c':
                    step = u.a[2][1]
                elif u.op == 'sub' and u.a[1] == ('v', x[1]) and u.a[2][0] == 'c':
                    step = -u.a[2][1]
                else:
                    return None
                if step == 0:
                    return None
                return abs(yv - v0) // abs(step) + 1
        return None

    def unrolled(self, L, st, trip):
        outs = []
        cur = [st]
        for it in range(trip + 2):
            nxt = []
            for s in cur:
                backs, exits, rets = self.region(L, s, True)
                outs += [('go', b, p, x) for b, p, x in exits]
                outs += [('ret', v, x) for v, x in rets]
                for p, x in backs:
                    self.phis(x, L, p)
                    nxt.append(x)
            if not nxt:
                return outs
            if len(nxt) + len(outs) > 600:
                raise Unsupported('unrolled loop has too many paths')
            cur = nxt
        raise Unsupported('unrolled loop did not terminate')

    def inv_loop(self, L, entry):
        fn = self.fn
        saved_collect = self.collect
        writes = {}           # fam -> None (whole) or dict id->objterm
        freshfam = set()
        phis = []
        for ins in fn.blocks[L]:
            if ins.op != 'phi':
                break
            phis.append(ins)
        entry_vals = {p.res: entry.env[p.res] for p in phis}
        # a candidate refuted once stays out when an enclosing loop is explored again (its facts only get weaker)
        if not hasattr(self, 'dead'):
            self.dead = {}
        dead = self.dead.setdefault((L, str(entry.trace)), set())
        dropped = set(dead)
        rounds = 0
        entry_n = len(entry.writes)
        bounds_terms = {}
        init_ok = None
        while True:
            rounds += 1
            if rounds > 25:
                raise Unsupported('invariant inference did not converge')
            self.cnt += 1
            mark = self.cnt
            h = entry.fork()
            h.writes = []
            hv = {}
            for p in phis:
                hv[p.res] = self.havoc_val(h, entry_vals[p.res], p.a[0], p.res)
                h.env[p.res] = hv[p.res]
            nx = self.fresh('NEXT')
            h.add(nx >= entry.next)
            h.next = nx
            havoc_names = {nx.decl().name()}
            for fam, ks in writes.items():
                M = self.getm(h, fam)
                if ks is None:
                    N = self.fresh('H_' + '_'.join(str(x) for x in fam), M.sort())
                    h.mem[fam] = N
                    havoc_names.add(N.decl().name())
                    for f in self.base_facts(fam, N, nx):
                        h.add(f)
                else:
                    for o in ks.values():
                        N = self.fresh('h_' + '_'.join(str(x) for x in fam), M.sort().range())
                        M = z3.Store(M, iv(o), N)
                        havoc_names.add(N.decl().name())
                        if self.fam_isptr(fam):
                            if z3.is_int(N):
                                h.add(z3.And(N >= 0, N < nx))
                            else:
                                i = z3.Int('i')
                                h.add(z3.ForAll([i], z3.And(N[i] >= 0, N[i] < nx), patterns=[N[i]]))
                        if fam[0] == 'G' and fam[1] in self.reg.nonneg and z3.is_int(N):
                            h.add(N >= 0)
                    if fam in freshfam:
                        # only fresh objects and ks are written: older objects keep their values
                        N = self.fresh('HF_' + '_'.join(str(x) for x in fam), M.sort())
                        o = z3.Int('o')
                        h.add(z3.ForAll([o], z3.Implies(z3.And(o < entry.next, o != 0), N[o] == M[o]), patterns=[N[o]]))
                        havoc_names.add(N.decl().name())
                        for f in self.base_facts(fam, N, nx):
                            h.add(f)
                        M = N
                    h.mem[fam] = M
            for p in phis:
                v = hv[p.res]
                e = v.obj if isinstance(v, P) else v
                if isz(e):
                    havoc_names |= consts_of(e)
            # candidates
            lv_entry = LoopView(self, L, entry, entry, entry_vals, bounds_terms, phis)
            lv_head = LoopView(self, L, h, entry, hv, bounds_terms, phis)
            ce = self.candidates(lv_entry)
            if init_ok is None or set(ce) - init_checked:
                if init_ok is None:
                    init_ok, init_checked = set(), set()
                for lab, f in ce.items():
                    if lab in init_checked:
                        continue
                    init_checked.add(lab)
                    if self.holds(entry, f, set(), self.contract.kw.get('initto', 3)):
                        init_ok.add(lab)
            S = [lab for lab in ce if lab in init_ok and lab not in dropped]
            ch = self.candidates(lv_head)
            h_facts0 = len(h.facts)
            for lab in S:
                if lab in ch:
                    h.add(ch[lab], ('cand', L, lab))
            self.collect = False
            head = h.fork()
            head.writes = h.writes = []
            self.cmpterms = {}
            backs, exits, rets = self.region(L, h, True)
            self.collect = saved_collect
            # write set
            changed = False
            for fam, o in head.writes:
                if isinstance(o, int):
                    key = o
                    if fam not in writes:
                        writes[fam] = {}
                    if writes[fam] is not None and key not in writes[fam]:
                        writes[fam][key] = o
                        changed = True
                    continue
                s = z3.simplify(o)
                cs = consts_of(s)
                newc = {c for c in cs if '!' in c and self.newer(c, mark)}
                if not newc:
                    if fam not in writes:
                        writes[fam] = {}
                    if writes[fam] is not None and s.get_id() not in writes[fam]:
                        writes[fam][s.get_id()] = s
                        changed = True
                elif self.is_fresh_since(s, nx):
                    if fam not in writes:
                        writes[fam] = {}
                    if writes[fam] is not None and fam not in freshfam:
                        freshfam.add(fam)
                        changed = True
                else:
                    if writes.get(fam, 0) is not None:
                        writes[fam] = None
                        changed = True
            # comparison bounds
            for k, t in self.cmp_bounds(L, head, mark).items():
                if k not in bounds_terms:
                    bounds_terms[k] = t
                    changed = True
            if changed:
                continue
            # consecution
            newdrop = set()
            alive = list(S)
            again = True
            bviews = []
            for p, s in backs:
                self.phis(s, L, p)
                bv = {q.res: s.env[q.res] for q in phis}
                lb = LoopView(self, L, s, entry, bv, bounds_terms, phis)
                bviews.append((s, self.candidates(lb)))
            while again:
                again = False
                for lab in list(alive):
                    for s, cb in bviews:
                        if lab not in cb or not self.holds(s, cb[lab], newdrop, self.contract.kw.get("hto", self.houdini_timeout), L, 'compl' in str(lab) or '!' in str(lab[2:3]), lab[0] == 'h' and self.contract.kw.get('retry', False) and lab[2]):
                            if DBGC and DBGC in str(lab):
                                print('DROP', L, rounds, lab, 'missing' if lab not in cb else '', s.trace, flush=True)
                                self.dbg_dump(s, cb.get(lab), newdrop, L)
                            alive.remove(lab)
                            newdrop.add(lab)
                            again = True
                            break
            if newdrop:
                dropped |= newdrop
                dead |= newdrop
                continue
            break
        # final exploration: obligations of the body are collected under the proved invariant
        if self.collect:
            h2 = head
            h2.writes = []
            n0 = len(self.obls)
            backs, exits, rets = self.region(L, h2, True)
            self.loopinfo.append((L, rounds, len(S), sorted(map(str, S))))
            for s, cb in bviews:
                pass
            self.ninv = getattr(self, 'ninv', 0) + len(S) * (1 + len(bviews))
        # propagate writes to the enclosing collector
        for fam, ks in writes.items():
            for o in ([] if ks is None else ks.values()):
                entry.writes.append((fam, o))
            if ks is None:
                entry.writes.append((fam, self.fresh('any')))
            if fam in freshfam:
                entry.writes.append((fam, nx))
        outs = []
        for b, p, x in exits:
            x.writes = entry.writes
            outs.append(('go', b, p, x))
        for v, x in rets:
            x.writes = entry.writes
            outs.append(('ret', v, x))
        return outs

    houdini_timeout = 2

    def dbg_dump(self, st, f, skip, L):
        if f is None or not os.environ.get('DBGF'):
            return
        facts = [x for x, tag in st.facts if not (tag is not None and tag[0] == 'cand' and tag[1] == L and tag[2] in skip)]
        z = z3.Solver()
        for x in list(self.axioms) + facts + getattr(self, 'init_facts', []):
            z.add(x)
        z.add(z3.Not(f))
        self.dbgn = getattr(self, 'dbgn', 0) + 1
        open('%s%d.smt2' % (os.environ['DBGF'], self.dbgn), 'w').write(z.to_smt2())

    def newer(self, cname, mark):
        try:
            return int(cname.rsplit('!', 1)[1]) > mark
        except ValueError:
            return False

    def is_fresh_since(self, s, nx):
        """s is nx + c with c>=0, or a later NEXT, or NULL-or-such"""
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ITE:
            return all(self.is_fresh_since(x, nx) or (z3.is_int_value(x) and x.as_long() == 0) for x in (s.arg(1), s.arg(2)))
        for c in consts_of(s):
            if not c.startswith('NEXT!'):
                return False
            if int(c.split('!')[1]) < int(nx.decl().name().split('!')[1]):
                return False
        return z3.is_app(s) and (s.num_args() == 0 or s.decl().kind() == z3.Z3_OP_ADD)

    def havoc_val(self, h, v, ty, name):
        nm = 'phi' + re.sub(r'\W', '_', name)
        if ty[0] == 'ptr':
            if isinstance(v, P) and v.path is not None:
                if v.path[0] == 'E':
                    return P(v.obj, ('E', v.path[1], self.fresh(nm)))
                raise Unsupported('interior pointer loop variable')
            r = self.fresh(nm)
            return P(r)
        if ty[0] in ('double', 'float'):
            return self.fresh(nm, R)
        if ty == ('i', 1):
            return self.fresh(nm, B)
        if self.bv:
            return self.fresh(nm, z3.BitVecSort(ty[1]))
        return self.fresh(nm)

    def holds(self, st, f, skip, timeout, L=None, hard=False, hint=False):
        f = iv(f)
        if z3.is_true(z3.simplify(f)):
            return True
        facts = [x for x, tag in st.facts if not (tag is not None and tag[0] == 'cand' and tag[1] == L and tag[2] in skip)]
        r, z = neg_check(facts + getattr(self, 'init_facts', []), f, timeout, self.axioms)
        if hint and r == z3.unknown and self.second_opinion(z, self.contract.kw.get('rto', {}).get(hint, 3)):
            r = z3.unsat
        if hint:
            # a stated invariant: other seeds before it is given up
            for seed in () if self.contract.kw.get('retry') == 'cvc5' else (1, 2, 3):
                if r != z3.unknown:
                    break
                r, _ = neg_check(facts + getattr(self, 'init_facts', []), f, max(1, timeout / 2), self.axioms, seed=seed)
        if hard and r == z3.unknown:
            r, _ = neg_check(facts + getattr(self, 'init_facts', []), f, 1, self.axioms, mbqi=True)
        return r == z3.unsat

    def cmp_bounds(self, L, head, mark):
        """loop-invariant operands of integer comparisons inside the loop"""
        out = {}
        fn = self.fn
        for b in fn.loops[L]:
            for ins in fn.blocks[b]:
                if ins.op == 'icmp' and ins.a[1][0] == 'i' and ins.a[1][1] > 1:
                    for v in (ins.a[2], ins.a[3]):
                        if v[0] == 'c' and -10 <= v[1] <= 1000:
                            out[('c', v[1])] = v[1]
                        elif v[0] == 'v':
                            x = self.last_env(L, b, v[1])
                            if isz(x) and not z3.is_bv(x):
                                s = z3.simplify(x)
                                if not any('!' in c and self.newer(c, mark) for c in consts_of(s)):
                                    out[('t', s.get_id())] = s
        return out

    def last_env(self, L, b, name):
        return self.lastvals.get(name)

    # ----- candidate invariants
    def candidates(self, lv):
        out = {}
        ints = lv.ints
        E = lv.entry_ints
        names = list(ints) if self.contract.kw.get('generic', True) else []
        for n in names:
            x = ints[n]
            e = E[n]
            if z3.is_bv(iv(x)):
                continue
            out[('ge0', n)] = iv(x) >= iv(e)
            out[('le0', n)] = iv(x) <= iv(e)
            out[('01', n)] = z3.And(iv(x) >= 0, iv(x) <= 1)
            for k, t in lv.bounds.items():
                out[('le', n, k)] = iv(x) <= t
                out[('ge', n, k)] = iv(x) >= t
                out[('le1', n, k)] = iv(x) <= iv(t) + 1
                out[('lt', n, k)] = iv(x) < t
                out[('ge1', n, k)] = iv(x) >= iv(t) - 1
        for i, n in enumerate(names):
            for m in names[i + 1:]:
                x, y = iv(ints[n]), iv(ints[m])
                if z3.is_bv(x) or z3.is_bv(y):
                    continue
                out[('diff', n, m)] = x - y == iv(E[n]) - iv(E[m])
                out[('sum', n, m)] = x + y == iv(E[n]) + iv(E[m])
                out[('lexy', n, m)] = x <= y
                out[('geyx', n, m)] = y <= x
        for n, p in lv.ptrs.items():
            e = lv.entry_ptrs[n]
            if isz(p) or isz(e):
                out[('pz', n)] = iv(p) == 0
                out[('pnz', n)] = iv(p) != 0
                out[('peq', n)] = iv(p) == iv(e)
                out[('pnn', n)] = iv(p) >= 0
                out[('pold', n)] = iv(p) < lv.entry.next
                out[('plt', n)] = iv(p) < lv.st.next
                out[('pfresh', n)] = z3.Or(iv(p) == 0, iv(p) >= self.NEXT0)
                out[('pfresh2', n)] = z3.Or(iv(p) == iv(e), iv(p) >= lv.entry.next)
        for hi, h in enumerate(self.hints):
            try:
                r = h(lv)
            except KeyError:
                continue
            for k, f in (r or {}).items():
                out[('h', hi) + (k if isinstance(k, tuple) else (k,))] = f
        return out

class Fork2(Exception):
    def __init__(self, cond, key):
        self.cond, self.key = cond, key

class LoopView:
    """what a hint may look at: names are positions, never source identifiers"""

    def __init__(self, ex, L, st, entry, vals, bounds, phis):
        self.ex, self.L, self.st, self.entry = ex, L, st, entry
        self.bounds = bounds
        self.ints, self.ptrs, self.entry_ints, self.entry_ptrs = {}, {}, {}, {}
        self.reals = {}
        self.entry_reals = {}
        for p in phis:
            n = p.res
            v = vals[n]
            e = entry.env[n] if n in entry.env else v
            if p.a[0][0] == 'ptr':
                if isinstance(v, P) and v.path is None:
                    self.ptrs[n] = v.obj
                    self.entry_ptrs[n] = e.obj
                elif isinstance(v, P) and v.path[0] == 'E':
                    self.ints[n] = v.path[2]
                    self.entry_ints[n] = e.path[2]
            elif p.a[0][0] == 'i' and p.a[0][1] > 1:
                self.ints[n] = v
                self.entry_ints[n] = e
            elif p.a[0][0] == 'i':
                self.ints[n] = z3.If(iv(v), z3.IntVal(1), z3.IntVal(0))
                self.entry_ints[n] = z3.If(iv(e), z3.IntVal(1), z3.IntVal(0))
            elif p.a[0][0] == 'double':
                self.reals[n] = v
                self.entry_reals[n] = e
        # int scalars in local memory or pointed to by arguments count as loop variables too
        for o in sorted(ex.localset | ex.cells, key=str):
            fam = ('E', 'i32')
            if fam in st.mem and not ex.bv:
                if ex.caps.get(o, 4) == 4:
                    n = ('cell', str(o))
                    self.ints[n] = z3.simplify(ex.sel(ex.sel(st.mem[fam], iv(o)), z3.IntVal(0)))
                    M = entry.mem.get(fam)
                    if M is None:
                        M = ex.getm(entry, fam)
                    self.entry_ints[n] = z3.simplify(ex.sel(ex.sel(M, iv(o)), z3.IntVal(0)))
        self.s = ex.view(st)
        self.s0 = ex.view(entry)
        self.pre = ex.preview
        self.calls = ex.calls_in(L)
        self.innermost = not any(b != L and b in ex.fn.loops for b in ex.fn.loops[L])
        self.fresh = list(entry.fresh)

    def scalars(self):
        """integer values computed before the loop that are plain symbols"""
        out = {}
        for v in self.entry.env.values():
            if isz(v) and z3.is_int(v) and z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[v.decl().name()] = v
        return out
