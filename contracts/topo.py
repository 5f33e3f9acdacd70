"""Contracts for the full-representation (F1) topology code in src/base.

In these files the adjacency records are concrete; entity records (MEntity.c) and lists (List.c) are
abstract, used through their contracts.  OWN/KIND are rigid ghost functions for separation: every
adjacency record and adjacency list belongs to one entity."""
from verify import *
import lists
import ents
from lists import WF, MAXL, modlist, elts, live, keepwf

OWN = z3.Function('OWN', I, I)
KIND = z3.Function('KIND', I, I)

CONCRETE = {}

# ---- representation
def ADJ(s, x): return s.fld(x, 40, 'ptr')
def VEL(s, v): return s.fld(ADJ(s, v), 0, 'ptr')
def EV(s, e, i): return s.felem(e, 48, i, 'ptr')
def EFL(s, e): return s.fld(ADJ(s, e), 0, 'ptr')
def FDW(s, f): return s.fld(ADJ(s, f), 0, 'i64')
def FEL(s, f): return s.fld(ADJ(s, f), 8, 'ptr')
def FR(s, f, i): return s.felem(ADJ(s, f), 16, i, 'ptr')
def RDP(s, r): return s.fld(ADJ(s, r), 0, 'ptr')
def RFL(s, r): return s.fld(ADJ(s, r), 8, 'ptr')
def RTYPE(s, r): return s.fld(r, 48, 'i32')
def FDIR(s, f, i): return BIT(FDW(s, f), i)
def RDW(s, r): return s.arr(RDP(s, r), 'i32')
def RDIR(s, r, i): return RBIT(RDW(s, r), iv(i))

V, E, F, RG = 0, 1, 2, 3
LST = {V: VEL, E: EFL, F: FEL, RG: RFL}

def good(c, s, x, kind):
    """full-representation entity of that kind with its adjacency record and list in place"""
    l = LST[kind](s, x)
    return z3.And(iv(x) > 0, s.RT(x) == 0, ADJ(s, x) > 0, WF(c, s, l))

def sep(s, x, kind):
    l = LST[kind](s, x)
    return z3.And(KIND(iv(x)) == kind, OWN(ADJ(s, x)) == iv(x), OWN(l) == iv(x), KIND(ADJ(s, x)) == 10 + kind, KIND(l) == 20 + kind)

WHY = 'every adjacency record and adjacency list belongs to exactly one entity'
def ent(c, kind, *xs):
    for x in xs:
        c.req('entity', good(c, c.pre, x, kind))
        c.assume(sep(c.pre, x, kind), WHY)

def allent(c, l, kind, guard=None):
    """every entry of list l is a good entity of that kind"""
    s = c.pre
    c.req('entries', c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < s.LEN(l)), good(c, s, s.ELT(l, i), kind)), lambda i: s.ELT(l, i)))
    c.assume(c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < s.LEN(l)), sep(s, s.ELT(l, i), kind)), lambda i: s.ELT(l, i)), WHY)

def inlist(c, s, l, x):
    k = c.ex.fresh('w')
    return z3.And(0 <= k, k < s.LEN(l), s.ELT(l, k) == x)

def exin(s, l, x):
    k = z3.Int('kx')
    return z3.Exists([k], z3.And(0 <= k, k < s.LEN(l), s.ELT(l, k) == x))

def newlist(c):
    o = c.new()
    for v in ('LEN', 'NTOT', 'ELT', 'POS'):
        c.mod(v, o)

def maybelist(c):
    o = c.maybe_new()
    for v in ('LEN', 'NTOT', 'ELT', 'POS'):
        c.mod(v, o)

def freshlist(c, r):
    return z3.And(r >= c.pre.next, r > 0, WF(c, c.post, r))

def copyof(c, l, s=None):
    """result is NULL if l is empty, else a new list with the same entries"""
    s, t, r = s or c.pre, c.post, c.res
    c.ens('empty', (r == 0) == (s.LEN(l) == 0))
    c.ens('fresh', z3.Implies(r != 0, freshlist(c, r)))
    c.ens('len', z3.Implies(r != 0, t.LEN(r) == s.LEN(l)))
    c.ens('ntot', z3.Implies(r != 0, t.NTOT(r) == s.NTOT(l)))
    c.ens('entries', z3.Implies(r != 0, elts(c, t, r, lambda i, v: v == s.ELT(l, i))))
    c.ens('entries2', z3.Implies(r != 0, elts(c, s, l, lambda i, v: v == t.ELT(r, i))))

def both(n, **kw):
    """the F1 implementation and the dispatching entry point have the same contract"""
    def d(g):
        FUNCS.append(n); FUNCS.append(n + '_F1')
        return contract(n, n + '_F1', **kw)(g)
    return d
def one(n, **kw):
    def d(g):
        FUNCS.append(n)
        return contract(n, **kw)(g)
    return d
FUNCS = []

# ---------------------------------------------------------------- vertex <-> edge
@both('MV_Num_Edges')
def _(c, v):
    ent(c, V, v)
    yield
    c.ens('count', c.res == c.pre.LEN(VEL(c.pre, v)))

@both('MV_Num_AdjVertices')
def _(c, v):
    ent(c, V, v)
    yield
    c.ens('count', c.res == c.pre.LEN(VEL(c.pre, v)))

@both('MV_Edges')
def _(c, v):
    ent(c, V, v)
    maybelist(c)
    yield
    copyof(c, VEL(c.pre, v))

def idsout(c, l, pn, pids):
    """*pn = number of entries, pids[i] = ID of entry i"""
    s, t = c.pre, c.post
    c.ens('count', t.at(pn, 0, 'i32') == s.LEN(l))
    c.ens('ids', c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < s.LEN(l)), t.elem(pids, i, 'i32') == s.IDV(s.ELT(l, i))), lambda i: t.elem(pids, i, 'i32')))

def idsargs(c, l, pn, pids):
    c.req('out', z3.And(pn > 0, pids > 0, pn != pids))
    c.assume(z3.And(KIND(pn) == 99, KIND(pids) == 99), 'output arrays do not overlap mesh data')
    c.mod(('E', 4), pn)
    c.mod(('E', 4), pids)
    c.mod(('E', 'i32'), pn)
    c.mod(('E', 'i32'), pids)

@both('MV_Add_Edge')
def _(c, v, e):
    ent(c, V, v)
    c.req('edge', e > 0)
    l = VEL(c.pre, v)
    c.req('room', c.pre.NTOT(l) < MAXL)
    modlist(c, l)
    yield
    lists_chkadd(c, l, e)

def lists_chkadd(c, l, e, g=None):
    s, t = c.pre, c.post
    im = (lambda x: x) if g is None else (lambda x: z3.Implies(g, x))
    c.ens('wf', im(WF(c, t, l)))
    n = s.LEN(l)
    grown = t.LEN(l) != n
    c.ens('grow', im(z3.Or(t.LEN(l) == n, t.LEN(l) == n + 1)))
    c.ens('ntot', im(z3.And(t.NTOT(l) >= s.NTOT(l), t.NTOT(l) <= s.NTOT(l) + 1)))
    c.ens('kept', im(c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < n), t.ELT(l, i) == s.ELT(l, i)), lambda i: t.ELT(l, i))))
    c.ens('kept2', im(c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < n), t.ELT(l, i) == s.ELT(l, i)), lambda i: s.ELT(l, i))))
    c.ens('appended', im(z3.Implies(grown, t.ELT(l, n) == e)))
    c.ens('absent', im(z3.Implies(grown, elts(c, s, l, lambda i, x: x != e))))
    if c.verifying:
        c.ens('present', im(z3.Implies(z3.Not(grown), exin(s, l, e))))
    else:
        c.ens('present', im(z3.Implies(z3.Not(grown), inlist(c, s, l, e))))

def lists_rem(c, l, e, g=None):
    """e's first occurrence is removed, the rest keeps its order"""
    s, t = c.pre, c.post
    im = (lambda x: x) if g is None else (lambda x: z3.Implies(g, x))
    c.ens('wf', im(WF(c, t, l)))
    n = s.LEN(l)
    shr = t.LEN(l) != n
    def same(k): return c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < t.LEN(l)), t.ELT(l, i) == z3.If(i < k, s.ELT(l, i), s.ELT(l, i + 1))), lambda i: t.ELT(l, i))
    def first(k): return z3.And(0 <= k, k < n, s.ELT(l, k) == e, c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < k), s.ELT(l, i) != e), lambda i: s.ELT(l, i)))
    c.ens('shrink', im(z3.Or(t.LEN(l) == n, t.LEN(l) == n - 1)))
    c.ens('ntot', im(t.NTOT(l) == s.NTOT(l)))
    c.ens('absent', im(z3.Implies(z3.Not(shr), elts(c, s, l, lambda i, x: x != e))))
    c.ens('same', im(z3.Implies(z3.Not(shr), elts(c, t, l, lambda i, x: x == s.ELT(l, i)))))
    if c.verifying:
        k = z3.Int('kr')
        c.ens('removed', im(z3.Implies(shr, z3.Exists([k], z3.And(first(k), same(k))))))
    else:
        k = c.ex.fresh('w')
        c.ens('removed', im(z3.Implies(shr, z3.And(first(k), same(k)))))
        c.ens('removed2', im(z3.Implies(shr, c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.If(i < k, t.ELT(l, i) == s.ELT(l, i), z3.Implies(i > k, t.ELT(l, i - 1) == s.ELT(l, i)))), lambda i: s.ELT(l, i)))))

@both('MV_Rem_Edge')
def _(c, v, e):
    ent(c, V, v)
    c.req('edge', e > 0)
    l = VEL(c.pre, v)
    modlist(c, l)
    yield
    lists_rem(c, l, e)

@one('ME_Set_Vertex')
def _(c, e, i, v):
    ent(c, V, v)
    ent(c, E, e)
    c.req('index', z3.Or(i == 0, i == 1))
    l = VEL(c.pre, v)
    c.req('room', c.pre.NTOT(l) < MAXL)
    c.mod(('FE', 48, 'ptr'), e)
    modlist(c, l)
    yield
    s, t = c.pre, c.post
    c.ens('end', EV(t, e, i) == v)
    c.ens('other-end', EV(t, e, 1 - i) == EV(s, e, 1 - i))
    lists_chkadd(c, l, e)

@one('ME_Replace_Vertex')
def _(c, e, ov, nv):
    s = c.pre
    ent(c, V, ov, nv)
    ent(c, E, e)
    c.req('different', ov != nv)
    c.req('room', s.NTOT(VEL(s, nv)) < MAXL)
    c.mod(('FE', 48, 'ptr'), e)
    modlist(c, VEL(s, ov))
    modlist(c, VEL(s, nv))
    yield
    t = c.post
    isend = z3.Or(EV(s, e, 0) == ov, EV(s, e, 1) == ov)
    k = z3.If(EV(s, e, 0) == ov, 0, 1)
    for i in (0, 1):
        c.ens('end%d' % i, EV(t, e, i) == z3.If(z3.And(isend, k == i), nv, EV(s, e, i)))
    for x in (ov, nv):
        l = VEL(s, x)
        c.ens('unchanged-otherwise', z3.Implies(z3.Not(isend), z3.And(t.LEN(l) == s.LEN(l), elts(c, t, l, lambda i, y: y == s.ELT(l, i)))))
    lo, ln = VEL(s, ov), VEL(s, nv)
    c.ens('new-vertex-has-edge', z3.Implies(isend, exin(t, ln, e)))
    c.ens('new-vertex-keeps', elts(c, s, ln, lambda i, y: t.ELT(ln, i) == s.ELT(ln, i)))
    c.ens('old-vertex-loses-one', z3.Implies(z3.And(isend, exin(s, lo, e)), t.LEN(lo) == s.LEN(lo) - 1))
    # if an edge is listed at most once, it is gone from the old vertex
    uniq = c.forall(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < s.LEN(lo)), z3.Or(s.ELT(lo, i) != e, s.ELT(lo, j) != e)), lambda i, j: z3.MultiPattern(s.ELT(lo, i), s.ELT(lo, j)))
    c.ens('old-vertex-lost-edge', z3.Implies(z3.And(isend, uniq), elts(c, t, lo, lambda i, y: y != e)))

@one('ME_Vertex')
def _(c, e, i):
    c.req('edge', e > 0)
    c.req('index', z3.Or(i == 0, i == 1))
    yield
    c.ens('value', c.res == EV(c.pre, e, i))

@one('ME_OppVertex')
def _(c, e, v):
    c.req('edge', e > 0)
    yield
    c.ens('value', c.res == z3.If(EV(c.pre, e, 0) == v, EV(c.pre, e, 1), EV(c.pre, e, 0)))

@one('ME_VertexID')
def _(c, e, i):
    s = c.pre
    c.req('edge', z3.And(e > 0, EV(s, e, i) > 0))
    c.req('index', z3.Or(i == 0, i == 1))
    yield
    c.ens('value', c.res == s.IDV(EV(s, e, i)))

@one('ME_OppVertexID')
def _(c, e, vid):
    s = c.pre
    c.req('edge', z3.And(e > 0, EV(s, e, 0) > 0, EV(s, e, 1) > 0))
    yield
    a, b = s.IDV(EV(s, e, 0)), s.IDV(EV(s, e, 1))
    c.ens('value', c.res == z3.If(a == vid, b, z3.If(b == vid, a, 0)))

@one('MEs_AreSame')
def _(c, a, b):
    s = c.pre
    c.req('edges', z3.And(a > 0, b > 0))
    yield
    same = z3.Or(a == b, z3.And(EV(s, a, 0) == EV(s, b, 0), EV(s, a, 1) == EV(s, b, 1)), z3.And(EV(s, a, 0) == EV(s, b, 1), EV(s, a, 1) == EV(s, b, 0)))
    c.ens('value', c.res == z3.If(same, 1, 0))

@one('ME_UsesEntity')
def _(c, e, x, ty):
    s = c.pre
    c.req('edge', z3.And(e > 0, x > 0, ty >= 0, ty <= 3))
    yield
    c.ens('value', c.res == z3.If(ty == 0, z3.If(z3.Or(EV(s, e, 0) == x, EV(s, e, 1) == x), 1, 0), z3.If(ty == 1, z3.If(e == x, 1, 0), 0)))

@one('MVs_CommonEdge')
def _(c, v1, v2):
    s = c.pre
    ent(c, V, v1)
    c.req('vertex', v2 > 0)
    l = VEL(s, v1)
    c.allocates()
    def joins(e): return z3.Or(EV(s, e, 0) == v2, EV(s, e, 1) == v2)
    c.inv(lambda L: {('seen', n): c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < iv(i)), z3.Not(joins(s.ELT(l, q)))), lambda q: s.ELT(l, q)) for n, i in L.ints.items()})
    yield
    c.ens('none', z3.Implies(c.res == 0, elts(c, s, l, lambda i, x: z3.Not(joins(x)))))
    c.ens('an-edge-of-v1', z3.Implies(c.res != 0, exin(s, l, c.res) if c.verifying else inlist(c, s, l, c.res)))
    c.ens('to-v2', z3.Implies(c.res != 0, joins(c.res)))

# ---------------------------------------------------------------- face boundary
def three(n, **kw):
    """dispatcher, F1 entry and the shared F1/F3 implementation have the same contract"""
    def d(g):
        FACE.extend([n, n + '_F1', n + '_F1F3'])
        return contract(n, n + '_F1', n + '_F1F3', **kw)(g)
    return d
FACE, EDIT, REG, RVE = [], [], [], []
def two(n, **kw):
    def d(g):
        FACE.extend([n + '_F1', n + '_F1F3'])
        return contract(n + '_F1', n + '_F1F3', **kw)(g)
    return d
def facef(n, **kw):
    def d(g):
        FACE.append(n)
        return contract(n, **kw)(g)
    return d

def face(c, *fs):
    ent(c, F, *fs)
    for f in fs:
        c.req('at-most-64-edges', c.pre.LEN(FEL(c.pre, f)) <= 64)

def faceedges(c, f):
    """its edges exist"""
    s = c.pre
    l = FEL(s, f)
    c.req('edges', c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < s.LEN(l)), z3.And(s.ELT(l, i) > 0, EV(s, s.ELT(l, i), 0) > 0, EV(s, s.ELT(l, i), 1) > 0)), lambda i: s.ELT(l, i)))

@three('MF_Num_Edges')
def _(c, f):
    face(c, f)
    yield
    c.ens('count', c.res == c.pre.LEN(FEL(c.pre, f)))

@three('MF_Num_Vertices')
def _(c, f):
    face(c, f)
    yield
    c.ens('count', c.res == c.pre.LEN(FEL(c.pre, f)))

@three('MF_EdgeDir_i')
def _(c, f, i):
    face(c, f)
    c.req('index', z3.And(i >= 0, i < 64))
    yield
    c.ens('value', c.res == FDIR(c.pre, f, i))
    c.ens('bool', z3.And(c.res >= 0, c.res <= 1))

def seen(L, s, l, pred):
    """entries before a loop counter satisfy pred"""
    out = {}
    for n, i in L.ints.items():
        q = z3.Int('q')
        out[('seen', n)] = z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < iv(i)), pred(s.ELT(l, q))), patterns=[s.ELT(l, q)])
    return out

@three('MF_EdgeDir')
def _(c, f, e):
    face(c, f)
    c.req('edge', e > 0)
    s = c.pre
    l = FEL(s, f)
    c.inv(lambda L: seen(L, s, l, lambda x: x != e))
    yield
    k = z3.Int('kd') if c.verifying else c.ex.fresh('w')
    f1 = z3.And(0 <= k, k < s.LEN(l), s.ELT(l, k) == e, elts(c, s, l, lambda i, x: z3.Implies(i < k, x != e)), c.res == FDIR(s, f, k))
    c.ens('direction-of-first-use', z3.Exists([k], f1) if c.verifying else f1)
    c.ens('bool', z3.And(c.res >= 0, c.res <= 1))

@two('MF_UsesEdge')
def _(c, f, e):
    face(c, f)
    c.req('edge', e > 0)
    s = c.pre
    l = FEL(s, f)
    yield
    c.ens('no', z3.Implies(c.res == 0, elts(c, s, l, lambda i, x: x != e)))
    c.ens('yes', z3.Implies(c.res != 0, exin(s, l, e) if c.verifying else inlist(c, s, l, e)))

@two('MF_UsesVertex')
def _(c, f, v):
    face(c, f)
    faceedges(c, f)
    c.req('vertex', v > 0)
    s = c.pre
    l = FEL(s, f)
    n = s.LEN(l)
    # consecutive edges share a vertex and the last one closes the loop
    def vend(i): return EV(s, s.ELT(l, i), FDIR(s, f, i))
    def vstart(i): return EV(s, s.ELT(l, i), 1 - FDIR(s, f, i))
    c.req('closed-loop', z3.And(n >= 2, vend(n - 1) == vstart(0), vend(n - 2) == vstart(n - 1)))
    def on(e): return z3.Or(EV(s, e, 0) == v, EV(s, e, 1) == v)
    c.inv(lambda L: seen(L, s, l, lambda x: z3.Not(on(x))))
    yield
    c.ens('bool', z3.Or(c.res == 0, c.res == 1))
    c.ens('no', z3.Implies(c.res == 0, elts(c, s, l, lambda i, x: z3.Not(on(x)))))
    k = z3.Int('ku') if c.verifying else c.ex.fresh('w')
    w = z3.And(0 <= k, k < n, on(s.ELT(l, k)))
    c.ens('yes', z3.Implies(c.res == 1, z3.Exists([k], w) if c.verifying else w))

def bit01(c, d):
    c.req('dir', z3.Or(d == 0, d == 1))

def mod2(a, n):
    """a mod n for 0<=a<2n"""
    return z3.If(a < n, a, a - n)

def trav(c, f, dir, v0, r, val, count=None, extra=()):
    """r(i) is val at the i-th position of the traversal of face f in direction dir, starting at v0 if given"""
    s = c.pre
    l = FEL(s, f)
    n = s.LEN(l)
    def idx(k, i): return z3.If(dir == 1, mod2(k + i, n), mod2(k + n - i, n))
    def start(k): return EV(s, s.ELT(l, k), z3.If(FDIR(s, f, k) == dir, 0, 1))
    c.ens('from-first', z3.Implies(v0 == 0, c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < n), r(i) == val(z3.If(dir == 1, i, n - 1 - i))), lambda i: r(i))))
    k = z3.Int('kt') if c.verifying else c.ex.fresh('w')
    key = (lambda x: x) if count is None else count
    b = z3.And(0 <= k, k < n, key(start(k)) == v0,
               c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < k), key(start(i)) != v0), lambda i: s.ELT(l, i)),
               c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < n), r(i) == val(idx(k, i))), lambda i: r(i)))
    c.ens('from-start-vertex', z3.Implies(v0 != 0, z3.Exists([k], b) if c.verifying else b))

def trav_inv(c, f, dir, v0, key=None):
    s = c.pre
    l = FEL(s, f)
    key = key or (lambda x: x)
    def start(k): return EV(s, s.ELT(l, k), z3.If(FDIR(s, f, k) == dir, 0, 1))
    def h(L):
        out = {}
        q = z3.Int('q')
        for n, i in L.ints.items():
            out[('nostart', n)] = z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < iv(i)), key(start(q)) != v0), patterns=[s.ELT(l, q)])
        return out
    c.inv(h)
    return start

def built_inv(c, val, cands, total=None):
    """the list built so far holds val(map(i)) at position i"""
    def h(L):
        out = {}
        q = z3.Int('q')
        for n, o in enumerate(L.fresh):
            o = iv(o)
            for m, i in L.ints.items():
                out[('len', n, m)] = L.s.LEN(o) == iv(i)
                out[('ntot', n, m)] = L.s.NTOT(o) == iv(i)
                if total is not None:
                    out[('lend', n, m)] = L.s.LEN(o) == total - 1 - iv(i)
                    out[('ntotd', n, m)] = L.s.NTOT(o) == total - 1 - iv(i)
            for nm, g in cands(L).items():
                out[('built', n, nm)] = z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < L.s.LEN(o)), L.s.ELT(o, q) == val(g(q))), patterns=[L.s.ELT(o, q)])
            out[('wf', n)] = WF(c, L.s, o)
        return out
    c.inv(h)

@three('MF_Edges')
def _(c, f, dir, v0):
    face(c, f)
    faceedges(c, f)
    bit01(c, dir)
    s = c.pre
    l = FEL(s, f)
    n = s.LEN(l)
    newlist(c)
    trav_inv(c, f, dir, v0)
    def cands(L):
        out = {'rev': lambda q: n - 1 - q}
        for m, k in list(L.scalars().items()) + [('0', 0)]:
            out['fwd' + m] = lambda q, k=k: mod2(iv(k) + q, n)
            out['bwd' + m] = lambda q, k=k: mod2(iv(k) + n - q, n)
            out['any' + m] = lambda q, k=k: z3.If(dir == 1, mod2(iv(k) + q, n), mod2(iv(k) + n - q, n))
        return out
    built_inv(c, lambda i: s.ELT(l, i), cands, n)
    yield
    t, r = c.post, c.res
    c.ens('fresh', freshlist(c, r))
    c.ens('count', t.LEN(r) == n)
    trav(c, f, dir, v0, lambda i: t.ELT(r, i), lambda i: s.ELT(l, i))

@three('MF_Vertices')
def _(c, f, dir, v0):
    face(c, f)
    faceedges(c, f)
    bit01(c, dir)
    s = c.pre
    l = FEL(s, f)
    n = s.LEN(l)
    newlist(c)
    start = trav_inv(c, f, dir, v0)
    def cands(L):
        out = {'rev': lambda q: z3.If(dir == 1, q, n - 1 - q)}
        for m, k in list(L.scalars().items()) + [('0', 0)]:
            out['any' + m] = lambda q, k=k: z3.If(dir == 1, mod2(iv(k) + q, n), mod2(iv(k) + n - q, n))
        return out
    built_inv(c, start, cands)
    yield
    t, r = c.post, c.res
    c.ens('fresh', freshlist(c, r))
    c.ens('count', t.LEN(r) == n)
    trav(c, f, dir, v0, lambda i: t.ELT(r, i), start)

# ---------------------------------------------------------------- more vertex and edge queries
ANYSET = z3.Function('ANYSET', I, z3.BoolSort())   # an arbitrary set of entities: a fact proved for it holds for every set

def listv(c, kind, x):
    """the entries of x's adjacency list exist"""
    s = c.pre
    l = LST[kind](s, x)
    c.req('entries', c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < s.LEN(l)), s.ELT(l, i) > 0), lambda i: s.ELT(l, i)))
    return l

def deep(c, kind, x, ek):
    """entries of x's list are good entities of kind ek"""
    l = LST[kind](c.pre, x)
    allent(c, l, ek)
    return l

def grow_inv(c, val, cands=None):
    """a freshly built list holds val(q) at q, its length follows a counter"""
    def h(L):
        out = {}
        q = z3.Int('q')
        for n, o in enumerate(L.fresh):
            o = iv(o)
            for m, i in L.ints.items():
                out[('len', n, m)] = L.s.LEN(o) == iv(i)
                out[('ntot', n, m)] = L.s.NTOT(o) == iv(i)
            out[('built', n)] = z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < L.s.LEN(o)), L.s.ELT(o, q) == val(q)), patterns=[L.s.ELT(o, q)])
            out[('wf', n)] = WF(c, L.s, o)
        return out
    c.inv(h)

@both('MV_AdjVertices')
def _(c, v):
    ent(c, V, v)
    s = c.pre
    l = listv(c, V, v)
    c.req('room', s.LEN(l) < MAXL)
    c.req('ends', c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < s.LEN(l)), z3.And(EV(s, s.ELT(l, i), 0) > 0, EV(s, s.ELT(l, i), 1) > 0)), lambda i: s.ELT(l, i)))
    newlist(c)
    def opp(i):
        e = s.ELT(l, i)
        return z3.If(EV(s, e, 0) == v, EV(s, e, 1), EV(s, e, 0))
    grow_inv(c, opp)
    yield
    t, r = c.post, c.res
    c.ens('fresh', freshlist(c, r))
    c.ens('count', t.LEN(r) == s.LEN(l))
    c.ens('vertices', c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < s.LEN(l)), t.ELT(r, i) == opp(i)), lambda i: t.ELT(r, i)))

def ids_inv(c, l, pids, val=None):
    s = c.pre
    val = val or (lambda q: s.IDV(s.ELT(l, q)))
    def h(L):
        out = {}
        for n, i in L.ints.items():
            out[('ids', n)] = c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < iv(i)), L.s.elem(pids, q, 'i32') == val(q)), lambda q: L.s.elem(pids, q, 'i32'))
        return out
    c.inv(h)

def idlist(n, kind, deco):
    @deco(n)
    def _(c, x, pn, pids):
        ent(c, kind, x)
        l = listv(c, kind, x)
        idsargs(c, l, pn, pids)
        c.cell(pn)
        ids_inv(c, l, pids)
        yield
        idsout(c, l, pn, pids)
idlist('MV_EdgeIDs', V, both)
idlist('ME_FaceIDs', E, both)

@both('ME_Num_Faces')
def _(c, e):
    ent(c, E, e)
    yield
    c.ens('count', c.res == c.pre.LEN(EFL(c.pre, e)))

@both('ME_Faces')
def _(c, e):
    ent(c, E, e)
    maybelist(c)
    yield
    copyof(c, EFL(c.pre, e))

@both('ME_Add_Face')
def _(c, e, f):
    ent(c, E, e)
    c.req('face', f > 0)
    l = EFL(c.pre, e)
    c.req('room', c.pre.NTOT(l) < MAXL)
    modlist(c, l)
    yield
    lists_chkadd(c, l, f)

@both('ME_Rem_Face')
def _(c, e, f):
    ent(c, E, e)
    c.req('face', f > 0)
    l = EFL(c.pre, e)
    modlist(c, l)
    yield
    lists_rem(c, l, f)

# ---------------------------------------------------------------- face sides
@three('MF_Region')
def _(c, f, i):
    c.req('face', z3.And(f > 0, c.pre.RT(f) == 0, ADJ(c.pre, f) > 0))
    c.req('side', z3.Or(i == 0, i == 1))
    yield
    c.ens('value', c.res == FR(c.pre, f, i))

# ---------------------------------------------------------------- sets of upward neighbours
ANYINT = z3.Function('ANYINT', I, z3.BoolSort())
def QS(c, s):
    """the arbitrary sets a set result is compared on.  What is proved for ANYSET holds for every set, so a
    caller may use it for ANYSET and for the sets of entities whose IDs lie in ANYINT"""
    return [lambda x: ANYSET(x)] if c.verifying else [lambda x: ANYSET(x), lambda x: ANYINT(s.IDV(x))]

I0, J0 = z3.Int('I0'), z3.Int('J0')   # arbitrary positions: what is proved for them holds for all positions

class Src:
    """the entities reached from x through one or two levels of lists (and the two sides of a face)"""
    def __init__(self, c, s, base, nxt=None, sides=None, leaf=None):
        self.c, self.s, self.base, self.nxt, self.sides, self.lf = c, s, base, nxt, sides, leaf
    def leaf(self, x, P):
        if self.lf:
            return self.lf(x, P)
        if self.sides is None:
            return P(x)
        return z3.And([z3.Implies(FR(self.s, x, k) != 0, P(FR(self.s, x, k))) for k in (0, 1)])
    def at(self, i, j, P, lo=None, hi=None, hj=None):
        """P holds for what is reached through position i (and j below it), if that exists and i<hi (j<hj)"""
        s, l = self.s, self.base
        hi = s.LEN(l) if hi is None else hi
        x = s.ELT(l, i)
        if self.nxt is None:
            return z3.Implies(z3.And(0 <= i, i < hi), self.leaf(x, P))
        m = self.nxt(x)
        hj = s.LEN(m) if hj is None else hj
        return z3.Implies(z3.And(0 <= i if lo is None else i == lo, i < hi, 0 <= j, j < hj), self.leaf(s.ELT(m, j), P))
    def all(self, P):
        s, l = self.s, self.base
        if self.nxt is None:
            return self.c.forall(1, lambda i: self.at(i, None, P), lambda i: s.ELT(l, i))
        return self.c.forall(2, lambda i, j: self.at(i, j, P), lambda i, j: s.ELT(self.nxt(s.ELT(l, i)), j))
    def some(self, P, **kw):
        return self.at(I0, J0, P, **kw)

def every(c, s, l, P):
    return c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < s.LEN(l)), P(s.ELT(l, q))), lambda q: s.ELT(l, q))

def distinct(c, s, l):
    return c.forall(2, lambda p, q: z3.Implies(z3.And(0 <= p, p < q, q < s.LEN(l)), s.ELT(l, p) != s.ELT(l, q)), lambda p, q: z3.MultiPattern(s.ELT(l, p), s.ELT(l, q)))

NO = lambda x: z3.BoolVal(False)
def set_result(c, src, r, unique=True, null=True):
    t = c.post
    al = src.some if c.verifying else src.all
    if null:
        c.ens('none', z3.Implies(r == 0, al(NO)))
        c.ens('some', z3.Implies(r != 0, t.LEN(r) > 0))
    else:
        c.ens('list', r != 0)
    c.ens('fresh', z3.Implies(r != 0, freshlist(c, r)))
    if unique:
        c.ens('each-once', z3.Implies(r != 0, distinct(c, t, r)))
    c.ens('valid', z3.Implies(r != 0, every(c, t, r, lambda x: x > 0)))
    for n, Q in enumerate(QS(c, c.pre)):
        c.ens('only-neighbours%d' % n, z3.Implies(z3.And(r != 0, HYP if c.verifying else src.all(Q)), every(c, t, r, Q)))
        c.ens('all-neighbours%d' % n, z3.Implies(z3.And(r != 0, every(c, t, r, Q)), al(Q)))

HYP = z3.Bool('HYP')
def set_inv(c, src, unique=True):
    if c.verifying:
        c.term(src.s.ELT(src.base, I0) if src.nxt is None else src.s.ELT(src.nxt(src.s.ELT(src.base, I0)), J0))
    c.ghost(src.all(lambda x: z3.Or(z3.Not(HYP), ANYSET(x))))   # HYP: 'everything reached lies in the arbitrary set'
    def h(L):
        out = {}
        s = c.pre
        sc = {**L.scalars(), **L.ints}
        Q = ANYSET
        for n, o in enumerate(L.fresh):
            o = iv(o)
            ls = L.s
            out[('wf', n)] = WF(c, ls, o)
            if unique:
                out[('distinct', n)] = distinct(c, ls, o)
            out[('valid', n)] = every(c, ls, o, lambda x: x > 0)
            for m, i in L.ints.items():
                out[('cnt', n, m)] = ls.LEN(o) == iv(i)
                out[('cap', n, m)] = ls.LEN(o) <= iv(i)
            out[('ntot', n)] = ls.NTOT(o) == ls.LEN(o)
            out[('sound', n)] = z3.Implies(HYP, every(c, ls, o, Q))
            isin = lambda x: exin(ls, o, x)
            for m, i in sc.items():
                out[('compl', n, m)] = src.some(isin, hi=iv(i))
                if src.nxt is not None:
                    for m2, j in L.ints.items():
                        if m2 != m:
                            out[('part', n, m, m2)] = src.some(isin, lo=iv(i), hj=iv(j))
        return out
    c.inv(h)

def roomy(c):
    c.assume(c.forall(1, lambda l: z3.And(c.pre.NTOT(l) >= 0), lambda l: c.pre.NTOT(l)), 'raw list sizes are not negative')

def vfaces_src(c, v):
    s = c.pre
    deep(c, V, v, E)
    l = VEL(s, v)
    c.req('faces', c.forall(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < s.LEN(l), 0 <= j, j < s.LEN(EFL(s, s.ELT(l, i)))), s.ELT(EFL(s, s.ELT(l, i)), j) > 0), lambda i, j: s.ELT(EFL(s, s.ELT(l, i)), j)))
    return Src(c, s, l, lambda e: EFL(s, e))

@both('MV_Faces')
def _(c, v):
    ent(c, V, v)
    src = vfaces_src(c, v)
    c.req('room', c.pre.LEN(VEL(c.pre, v)) < MAXL)
    maybelist(c)
    c.allocates()
    set_inv(c, src)
    yield
    set_result(c, src, c.res)

def eregs_src(c, e):
    """the regions of an edge: those on either side of the faces that use it"""
    ent(c, E, e)
    s = c.pre
    l = EFL(s, e)
    c.req('entries', c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < s.LEN(l)), z3.And(s.ELT(l, i) > 0, s.RT(s.ELT(l, i)) == 0, ADJ(s, s.ELT(l, i)) > 0, FR(s, s.ELT(l, i), 0) >= 0, FR(s, s.ELT(l, i), 1) >= 0)), lambda i: s.ELT(l, i)))
    c.req('room', s.LEN(l) < MAXL)
    return Src(c, s, l, sides=True)

@both('ME_Regions')
def _(c, e):
    src = eregs_src(c, e)
    maybelist(c)
    c.allocates()
    set_inv(c, src)
    yield
    set_result(c, src, c.res)

MVR = ['MV_Regions', 'MV_Regions_F1']
def vregs_src(c, v):
    ent(c, V, v)
    s = c.pre
    deep(c, V, v, E)
    l = VEL(s, v)
    def fok(f): return z3.And(f > 0, s.RT(f) == 0, ADJ(s, f) > 0, FR(s, f, 0) >= 0, FR(s, f, 1) >= 0)
    c.req('faces', c.forall(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < s.LEN(l), 0 <= j, j < s.LEN(EFL(s, s.ELT(l, i)))), fok(s.ELT(EFL(s, s.ELT(l, i)), j))), lambda i, j: s.ELT(EFL(s, s.ELT(l, i)), j)))
    c.req('room', s.LEN(l) < MAXL)
    return Src(c, s, l, lambda e: EFL(s, e), sides=True)

@contract(*MVR)
def _(c, v):
    src = vregs_src(c, v)
    maybelist(c)
    c.allocates()
    set_inv(c, src)
    yield
    set_result(c, src, c.res)

def setids(n, mk):
    """the IDs of a set of neighbours: they lie in any set of numbers that holds every neighbour's ID, and any set
    of numbers that holds them holds every neighbour's ID"""
    FUNCS.extend([n, n + '_F1'])
    @contract(n, n + '_F1')
    def _(c, x, pn, pids):
        src = mk(c, x)
        s = c.pre
        idsargs(c, None, pn, pids)
        c.cell(pn)
        c.allocates()
        Q = lambda y: ANYINT(s.IDV(y))
        c.ghost(src.all(lambda y: z3.Or(z3.Not(HYP), Q(y))))
        def within(t, n):
            return c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < n), ANYINT(t.elem(pids, q, 'i32'))), lambda q: t.elem(pids, q, 'i32'))
        def lists(L):   # what the functions called before the loop returned: NULL or a new list
            os = {}
            for v in L.entry.env.values():
                o = getattr(v, 'obj', None)
                if o is not None and z3.is_app_of(o, z3.Z3_OP_ITE):
                    os[str(o)] = o
            return [os[k] for k in sorted(os)]
        def h(L):
            out = {}
            for m, i in L.ints.items():
                for k, o in enumerate(lists(L)):
                    out[('ids', m, k)] = c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < iv(i)), L.s.elem(pids, q, 'i32') == s.IDV(L.s.ELT(o, q))), lambda q: L.s.elem(pids, q, 'i32'))
                    out[('idsb', m, k)] = c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < iv(i)), L.s.elem(pids, q, 'i32') == s.IDV(L.s.ELT(o, q))), lambda q: L.s.ELT(o, q))
            return out
        c.inv(h)
        yield
        t = c.post
        m = t.at(pn, 0, 'i32')
        al = src.some if c.verifying else src.all
        c.ens('count', m >= 0)
        c.ens('none', z3.Implies(m == 0, al(NO)))
        c.ens('only-neighbours', z3.Implies(HYP if c.verifying else src.all(Q), within(t, m)))
        c.ens('all-neighbours', z3.Implies(within(t, m), al(Q)))

def vfaces(c, v):
    ent(c, V, v)
    src = vfaces_src(c, v)
    c.req('room', c.pre.LEN(VEL(c.pre, v)) < MAXL)
    return src
setids('MV_FaceIDs', vfaces)
setids('ME_RegionIDs', eregs_src)
setids('MV_RegionIDs', vregs_src)

# ---------------------------------------------------------------- face editing
def dec(lst, *names):
    def deco(n, **kw):
        ns = [n + x for x in names]
        def d(g):
            lst.extend(ns)
            return contract(*ns, **kw)(g)
        return d
    return deco
edit3 = dec(EDIT, '', '_F1', '_F1F3')
side3 = dec(REG, '', '_F1', '_F1F3')
side2 = dec(REG, '', '_F1F3')
reg3 = dec(REG, '', '_F1', '_FNR3R4')
reg2 = dec(REG, '', '_FNR3R4')
NB = 64
ALLOUT = z3.Bool('ALLOUT')
X0 = z3.Int('X0')

def bits(c, n, f, pat):
    """forall 0<=q<n"""
    return c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < n), f(q)), pat)

@edit3('MF_Rev_EdgeDir_i')
def _(c, f, i):
    face(c, f)
    c.req('index', z3.And(0 <= i, i < NB))
    c.mod(('F', 0, 'i64'), ADJ(c.pre, f))
    yield
    s, t = c.pre, c.post
    c.ens('flipped', bits(c, NB, lambda q: FDIR(t, f, q) == z3.If(q == i, 1 - FDIR(s, f, q), FDIR(s, f, q)), lambda q: FDIR(t, f, q)))

def once(c, s, l, x):
    return c.forall(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < s.LEN(l)), z3.Or(s.ELT(l, i) != x, s.ELT(l, j) != x)), lambda i, j: z3.MultiPattern(s.ELT(l, i), s.ELT(l, j)))

@edit3('MF_Rev_EdgeDir')
def _(c, f, e):
    face(c, f)
    c.req('edge', e > 0)
    s = c.pre
    l = FEL(s, f)
    c.mod(('F', 0, 'i64'), ADJ(s, f))
    def h(L):
        out = {}
        for m, i in L.ints.items():
            out[('rev', m)] = bits(c, NB, lambda q: FDIR(L.s, f, q) == z3.If(z3.And(q < iv(i), s.ELT(l, q) == e), 1 - FDIR(s, f, q), FDIR(s, f, q)), lambda q: FDIR(L.s, f, q))
        return out
    c.inv(h)
    yield
    t = c.post
    n = s.LEN(l)
    c.ens('flipped', bits(c, n, lambda q: FDIR(t, f, q) == z3.If(s.ELT(l, q) == e, 1 - FDIR(s, f, q), FDIR(s, f, q)), lambda q: FDIR(t, f, q)))

def kfirst(c, s, l, x, nm='kf'):
    """-> (k, k is the first position of x in l)"""
    k = z3.Int(nm) if c.verifying else c.ex.fresh('w')
    return k, z3.And(0 <= k, k < s.LEN(l), s.ELT(l, k) == x, elts(c, s, l, lambda i, y: z3.Implies(i < k, y != x)))

K0 = z3.Int('K0')
def firstpos(c, s, l, x, g, nm='there'):
    """-> (k, guard): k is the first position of x in l; what is proved for an arbitrary such K0 a caller may use for it"""
    if c.verifying:
        c.ens(nm, z3.Implies(g, exin(s, l, x)))
        k, gd = K0, z3.And(g, 0 <= K0, K0 < s.LEN(l), s.ELT(l, K0) == x, elts(c, s, l, lambda i, y: z3.Implies(i < K0, y != x)))
    else:
        k, gd = c.ex.fresh('w'), g
        c.ens(nm, z3.Implies(g, z3.And(0 <= k, k < s.LEN(l), s.ELT(l, k) == x, elts(c, s, l, lambda i, y: z3.Implies(i < k, y != x)))))
    return k, lambda f: z3.Implies(gd, f)

def ex(c, k, f):
    return z3.Exists([k], f) if c.verifying else f

@edit3('MF_Rem_Edge')
def _(c, f, e):
    s = c.pre
    face(c, f)
    ent(c, E, e)
    l = FEL(s, f)
    n = s.LEN(l)
    modlist(c, l)
    modlist(c, EFL(s, e))
    c.mod(('F', 0, 'i64'), ADJ(s, f))
    def h(L):
        out = {}
        sc = L.scalars()
        for m, i in L.ints.items():
            for m2, k in sc.items():
                if m2 != m:
                    out[('shift', m, m2)] = bits(c, NB, lambda q: FDIR(L.s, f, q) == FDIR(s, f, z3.If(z3.And(iv(k) <= q, q < iv(i)), q + 1, q)), lambda q: FDIR(L.s, f, q))
                    out[('le', m, m2)] = iv(k) <= iv(i)
        return out
    c.inv(h)
    c.inv(lambda L: seen(L, s, l, lambda x: x != e))
    yield
    t = c.post
    isin = exin(s, l, e)
    keepwf(c, l)
    keepwf(c, EFL(s, e))
    c.ens('not-there', z3.Implies(t.LEN(l) == n, z3.And(elts(c, s, l, lambda i, x: x != e), elts(c, t, l, lambda i, x: x == s.ELT(l, i)))))
    c.ens('shrink', z3.Or(t.LEN(l) == n, t.LEN(l) == n - 1))
    k, G = firstpos(c, s, l, e, t.LEN(l) != n)
    c.ens('removed-edges', G(c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < n - 1), t.ELT(l, q) == s.ELT(l, z3.If(q < k, q, q + 1))), lambda q: t.ELT(l, q))))
    c.ens('removed-directions', G(bits(c, n - 1, lambda q: FDIR(t, f, q) == FDIR(s, f, z3.If(q < k, q, q + 1)), lambda q: FDIR(t, f, q))))
    m = EFL(s, e)
    c.ens('edge-forgets-face', z3.Implies(z3.And(t.LEN(l) != n, exin(s, m, f)), t.LEN(m) == s.LEN(m) - 1))
    c.ens('edge-forgets-face2', z3.Implies(z3.And(t.LEN(l) != n, once(c, s, m, f)), elts(c, t, m, lambda i, x: x != f)))

@facef('MF_UsesEntity')
def _(c, f, x, ty):
    s = c.pre
    face(c, f)
    faceedges(c, f)
    l = FEL(s, f)
    n = s.LEN(l)
    def vend(i): return EV(s, s.ELT(l, i), FDIR(s, f, i))
    def vstart(i): return EV(s, s.ELT(l, i), 1 - FDIR(s, f, i))
    c.req('args', z3.And(x > 0, ty >= 0, ty <= 3))
    c.req('closed-loop', z3.And(n >= 2, vend(n - 1) == vstart(0), vend(n - 2) == vstart(n - 1)))
    yield
    def on(e): return z3.Or(EV(s, e, 0) == x, EV(s, e, 1) == x)
    c.ens('region', z3.Implies(ty == 3, c.res == 0))
    c.ens('face', z3.Implies(ty == 2, c.res == z3.If(f == x, 1, 0)))
    c.ens('no-edge', z3.Implies(z3.And(ty == 1, c.res == 0), elts(c, s, l, lambda i, y: y != x)))
    c.ens('edge', z3.Implies(z3.And(ty == 1, c.res != 0), exin(s, l, x)))
    c.ens('no-vertex', z3.Implies(z3.And(ty == 0, c.res == 0), elts(c, s, l, lambda i, y: z3.Not(on(y)))))
    k = z3.Int('ku')
    c.ens('vertex', z3.Implies(z3.And(ty == 0, c.res != 0), z3.Exists([k], z3.And(0 <= k, k < n, on(s.ELT(l, k))))))

@facef('MF_ElementType')
def _(c, f):
    face(c, f)
    yield
    n = c.pre.LEN(FEL(c.pre, f))
    c.ens('type', c.res == z3.If(n <= 2, 0, z3.If(n == 3, 3, z3.If(n == 4, 4, 5))))

# ---------------------------------------------------------------- sides of a face
def side(c, *fs):
    for f in fs:
        c.req('face', z3.And(f > 0, c.pre.RT(f) == 0, ADJ(c.pre, f) > 0))
        c.assume(z3.And(OWN(ADJ(c.pre, f)) == iv(f), KIND(ADJ(c.pre, f)) == 10 + F), WHY)

@side3('MF_Regions')
def _(c, f):
    side(c, f)
    maybelist(c)
    yield
    s, t, r = c.pre, c.post, c.res
    a, b = FR(s, f, 0), FR(s, f, 1)
    c.ens('none', (r == 0) == z3.And(a == 0, b == 0))
    c.ens('fresh', z3.Implies(r != 0, freshlist(c, r)))
    c.ens('count', z3.Implies(r != 0, t.LEN(r) == z3.If(a != 0, 1, 0) + z3.If(b != 0, 1, 0)))
    c.ens('ntot', z3.Implies(r != 0, t.NTOT(r) == t.LEN(r)))
    c.ens('first', z3.Implies(r != 0, t.ELT(r, 0) == z3.If(a != 0, a, b)))
    c.ens('second', z3.Implies(z3.And(a != 0, b != 0), t.ELT(r, 1) == b))

@side2('MF_RegionIDs')
def _(c, f, pn, pids):
    side(c, f)
    idsargs(c, None, pn, pids)
    c.cell(pn)
    yield
    s, t = c.pre, c.post
    a, b = FR(s, f, 0), FR(s, f, 1)
    c.ens('count', t.at(pn, 0, 'i32') == z3.If(a != 0, 1, 0) + z3.If(b != 0, 1, 0))
    c.ens('first', z3.Implies(z3.Or(a != 0, b != 0), t.elem(pids, 0, 'i32') == s.IDV(z3.If(a != 0, a, b))))
    c.ens('second', z3.Implies(z3.And(a != 0, b != 0), t.elem(pids, 1, 'i32') == s.IDV(b)))

@side2('MF_RegionID')
def _(c, f, i):
    side(c, f)
    c.req('side', z3.Or(i == 0, i == 1))
    yield
    x = FR(c.pre, f, i)
    c.ens('value', c.res == z3.If(x == 0, 0, c.pre.IDV(x)))

@side3('MF_Add_Region')
def _(c, f, r, i):
    side(c, f)
    c.req('region', r > 0)
    c.req('side', z3.Or(i == 0, i == 1))
    c.mod(('FE', 16, 'ptr'), ADJ(c.pre, f))
    yield
    s, t = c.pre, c.post
    c.ens('attached', FR(t, f, i) == r)
    c.ens('other-side', FR(t, f, 1 - i) == FR(s, f, 1 - i))

@side3('MF_Rem_Region')
def _(c, f, r):
    side(c, f)
    c.req('region', r > 0)
    c.mod(('FE', 16, 'ptr'), ADJ(c.pre, f))
    yield
    s, t = c.pre, c.post
    a, b = FR(s, f, 0), FR(s, f, 1)
    c.ens('side0', FR(t, f, 0) == z3.If(a == r, 0, a))
    c.ens('side1', FR(t, f, 1) == z3.If(z3.And(a != r, b == r), 0, b))

# ---------------------------------------------------------------- regions
MAXPF3 = 512
def region(c, *rs):
    s = c.pre
    for r in rs:
        ent(c, RG, r)
        c.req('dirs', RDP(s, r) > 0)
        c.req('at-most-512-faces', s.LEN(RFL(s, r)) <= MAXPF3)
        c.assume(z3.And(OWN(RDP(s, r)) == iv(r), KIND(RDP(s, r)) == 33), WHY)

def rfaces(c, r):
    s = c.pre
    l = RFL(s, r)
    allent(c, l, F)
    c.req('face-size', c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < s.LEN(l)), s.LEN(FEL(s, s.ELT(l, i))) <= 64), lambda i: s.ELT(l, i)))
    return l

@reg3('MR_Num_Faces')
def _(c, r):
    region(c, r)
    yield
    c.ens('count', c.res == c.pre.LEN(RFL(c.pre, r)))

@reg3('MR_Faces')
def _(c, r):
    region(c, r)
    newlist(c)
    yield
    s, t, x = c.pre, c.post, c.res
    l = RFL(s, r)
    c.ens('fresh', freshlist(c, x))
    c.ens('count', t.LEN(x) == s.LEN(l))
    c.ens('entries', elts(c, t, x, lambda i, v: v == s.ELT(l, i)))
    c.ens('entries2', elts(c, s, l, lambda i, v: v == t.ELT(x, i)))

@reg2('MR_FaceIDs')
def _(c, r, pn, pids):
    region(c, r)
    l = listv(c, RG, r)
    idsargs(c, l, pn, pids)
    c.cell(pn)
    ids_inv(c, l, pids)
    yield
    idsout(c, l, pn, pids)

@reg3('MR_FaceDir_i')
def _(c, r, i):
    region(c, r)
    c.req('index', z3.And(0 <= i, i < MAXPF3))
    yield
    c.ens('value', c.res == RDIR(c.pre, r, i))

@reg3('MR_FaceDir')
def _(c, r, f):
    region(c, r)
    s = c.pre
    l = RFL(s, r)
    c.req('face', f > 0)
    c.inv(lambda L: seen(L, s, l, lambda x: x != f))
    yield
    c.ens('absent', (c.res == -1) == elts(c, s, l, lambda i, x: x != f))
    k, first = kfirst(c, s, l, f)
    c.ens('direction', z3.Implies(c.res != -1, ex(c, k, z3.And(first, c.res == RDIR(s, r, k)))))

@dec(REG, '_F1', '_FNR3R4')('MR_UsesFace')
def _(c, r, f):
    region(c, r)
    c.req('face', f > 0)
    s = c.pre
    l = RFL(s, r)
    yield
    c.ens('no', z3.Implies(c.res == 0, elts(c, s, l, lambda i, x: x != f)))
    c.ens('yes', z3.Implies(c.res != 0, exin(s, l, f) if c.verifying else inlist(c, s, l, f)))

def one_side(c, r):
    """a face of r has r on exactly one side"""
    s = c.pre
    l = RFL(s, r)
    c.req('face-has-region-on-one-side', c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < s.LEN(l)), (FR(s, s.ELT(l, i), 0) == r) != (FR(s, s.ELT(l, i), 1) == r)), lambda i: s.ELT(l, i)))

def facesides(c, r):
    s = c.pre
    l = RFL(s, r)
    c.req('entries', c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < s.LEN(l)), z3.And(s.ELT(l, i) > 0, s.RT(s.ELT(l, i)) == 0, ADJ(s, s.ELT(l, i)) > 0)), lambda i: s.ELT(l, i)))
    return l

@reg3('MR_AdjRegions')
def _(c, r):
    region(c, r)
    s = c.pre
    l = facesides(c, r)
    one_side(c, r)
    c.req('room', s.LEN(l) < MAXL)
    newlist(c)
    def opp(f): return z3.If(FR(s, f, 0) == r, FR(s, f, 1), FR(s, f, 0))
    src = Src(c, s, l, leaf=lambda f, P: z3.Implies(opp(f) != 0, P(opp(f))))
    set_inv(c, src, unique=False)
    yield
    set_result(c, src, c.res, unique=False, null=False)

@reg2('MR_AdjRegionIDs')
def _(c, r, pn, pids):
    region(c, r)
    s = c.pre
    l = facesides(c, r)
    one_side(c, r)
    c.req('ids', c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < s.LEN(l)), z3.And([z3.And(z3.Implies(FR(s, s.ELT(l, i), k) != 0, s.IDV(FR(s, s.ELT(l, i), k)) > 0), z3.Implies(s.IDV(FR(s, s.ELT(l, i), k)) == s.IDV(r), FR(s, s.ELT(l, i), k) == r)) for k in (0, 1)])), lambda i: s.ELT(l, i)))
    idsargs(c, l, pn, pids)
    def opp(f): return z3.If(FR(s, f, 0) == r, FR(s, f, 1), FR(s, f, 0))
    c.ghost(c.forall(1, lambda i: z3.Implies(z3.And(HYP, 0 <= i, i < s.LEN(l), opp(s.ELT(l, i)) != 0), ANYINT(s.IDV(opp(s.ELT(l, i))))), lambda i: s.ELT(l, i)))
    k = z3.Int('kx')
    def some(t, n, hi): return z3.Implies(z3.And(0 <= I0, I0 < hi, opp(s.ELT(l, I0)) != 0), z3.Exists([k], z3.And(0 <= k, k < n, t.elem(pids, k, 'i32') == s.IDV(opp(s.ELT(l, I0))))))
    def h(L):
        out = {}
        for m, n in L.ints.items():
            out[('sound', m)] = z3.Implies(HYP, c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < iv(n)), ANYINT(L.s.elem(pids, q, 'i32'))), lambda q: L.s.elem(pids, q, 'i32')))
            for m2, i in L.ints.items():
                if m2 != m:
                    out[('compl', m, m2)] = some(L.s, iv(n), iv(i))
                    out[('cap', m, m2)] = iv(n) <= iv(i)
        return out
    c.inv(h)
    yield
    t = c.post
    n = t.at(pn, 0, 'i32')
    c.ens('count', z3.And(n >= 0, n <= s.LEN(l)))
    c.ens('only-neighbours', z3.Implies(HYP, c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < n), ANYINT(t.elem(pids, q, 'i32'))), lambda q: t.elem(pids, q, 'i32'))))
    c.ens('all-neighbours', some(t, n, s.LEN(l)))

RUNKNOWN, TET, PYR, PRISM, HEX, POLY = range(6)
def etype(n, cnt):
    """element type by number of faces and how many of them are triangles/quads"""
    return z3.If(n <= 3, RUNKNOWN, z3.If(n == 4, z3.If(cnt(3) == 4, TET, POLY), z3.If(n == 5, z3.If(z3.And(cnt(4) == 3, cnt(3) == 2), PRISM, z3.If(z3.And(cnt(4) == 1, cnt(3) == 4), PYR, POLY)),
                 z3.If(n == 6, z3.If(cnt(4) == 6, HEX, POLY), POLY))))
def nfaces_of(s, l, n, hi, sz):
    return sum([z3.If(z3.And(q < hi, q < n, s.LEN(FEL(s, s.ELT(l, q))) == sz), 1, 0) for q in range(6)])

@reg2('MR_Update_ElementType')
def _(c, r):
    region(c, r)
    s = c.pre
    l = rfaces(c, r)
    n = s.LEN(l)
    c.mod(('F', 48, 'i32'), r)
    def h(L):
        out = {}
        for m, i in L.ints.items():
            for sz in (3, 4):
                for m2, k in L.ints.items():
                    if m2 != m:
                        out[('cnt', m, m2, sz)] = iv(k) == nfaces_of(s, l, n, iv(i), sz)
                out[('all', m, sz)] = nfaces_of(s, l, n, iv(i), sz) == iv(i)
        return out
    c.inv(h)
    yield
    c.ens('type', RTYPE(c.post, r) == etype(n, lambda sz: nfaces_of(s, l, n, n, sz)))

@dec(REG, '')('MR_ElementType')
def _(c, r):
    c.req('region', r > 0)
    yield
    c.ens('value', c.res == RTYPE(c.pre, r))

# ---------------------------------------------------------------- region editing
def rface(c, r, i):
    """face i of r exists and records r on at most one side"""
    s = c.pre
    f = s.ELT(RFL(s, r), i)
    side(c, f)
    c.req('r-on-at-most-one-side', z3.Or(FR(s, f, 0) != r, FR(s, f, 1) != r))
    return f

def moddirs(c, *rs):
    for r in rs:
        c.mod(('E', 'i32'), RDP(c.pre, r))
        c.mod(('E', 4), RDP(c.pre, r))

def dirs_ens(c, r, n, val, name='directions'):
    s, t = c.pre, c.post
    c.ens(name, bits(c, n, lambda q: RDIR(t, r, q) == val(q), lambda q: RDIR(t, r, q)))

@reg3('MR_Set_FaceDir_i')
def _(c, r, i, d):
    region(c, r)
    s = c.pre
    c.req('index', z3.And(0 <= i, i < s.LEN(RFL(s, r))))
    bit01(c, d)
    f = rface(c, r, i)
    moddirs(c, r)
    c.mod(('FE', 16, 'ptr'), ADJ(s, f))
    c.allocates()
    yield
    t = c.post
    dirs_ens(c, r, MAXPF3, lambda q: z3.If(q == i, d, RDIR(s, r, q)))
    c.ens('side', FR(t, f, 1 - d) == r)
    c.ens('other-side', FR(t, f, d) == z3.If(FR(s, f, d) == r, 0, FR(s, f, d)))
    c.ens('done', c.res == 1)

def upd(c, r, f, d, k, gone=None):
    """postcondition of setting the direction of face f (position k of r) to d"""

@reg3('MR_Set_FaceDir')
def _(c, r, f, d):
    region(c, r)
    s = c.pre
    l = RFL(s, r)
    side(c, f)
    c.req('r-on-at-most-one-side', z3.Or(FR(s, f, 0) != r, FR(s, f, 1) != r))
    bit01(c, d)
    moddirs(c, r)
    c.mod(('FE', 16, 'ptr'), ADJ(s, f))
    c.allocates()
    c.inv(lambda L: seen(L, s, l, lambda x: x != f))
    yield
    t = c.post
    c.ens('absent', (c.res == 0) == elts(c, s, l, lambda i, x: x != f))
    c.ens('absent-unchanged', z3.Implies(c.res == 0, z3.And(bits(c, MAXPF3, lambda q: RDIR(t, r, q) == RDIR(s, r, q), lambda q: RDIR(t, r, q)), FR(t, f, 0) == FR(s, f, 0), FR(t, f, 1) == FR(s, f, 1))))
    k, first = kfirst(c, s, l, f)
    c.ens('directions', z3.Implies(c.res != 0, ex(c, k, z3.And(first, bits(c, MAXPF3, lambda q: RDIR(t, r, q) == z3.If(q == k, d, RDIR(s, r, q)), lambda q: RDIR(t, r, q))))))
    c.ens('side', z3.Implies(c.res != 0, z3.And(c.res == 1, FR(t, f, 1 - d) == r, FR(t, f, d) == z3.If(FR(s, f, d) == r, 0, FR(s, f, d)))))

def beyond(s, r, f): return z3.If(FR(s, f, 0) == r, FR(s, f, 1), FR(s, f, 0))

def rev_pre(c, r, f, k):
    """face f at position k of r: r on the side its direction says, the region beyond it (if any) is a good region"""
    s = c.pre
    o = beyond(s, r, f)
    d = RDIR(s, r, k)
    c.req('r-on-its-side', z3.And(FR(s, f, 1 - d) == r, FR(s, f, d) != r))
    c.req('opposite-region', z3.Implies(o != 0, z3.And(good(c, s, o, RG), RDP(s, o) > 0, s.LEN(RFL(s, o)) <= MAXPF3)))
    c.assume(z3.Implies(o != 0, z3.And(sep(s, o, RG), OWN(RDP(s, o)) == o, KIND(RDP(s, o)) == 33)), WHY)
    return o

def rev_post(c, r, f, k, o, g=True, dirs=True):
    s, t = c.pre, c.post
    im = lambda x: z3.Implies(g, x)
    if dirs:
        c.ens('directions', im(bits(c, MAXPF3, lambda q: RDIR(t, r, q) == z3.If(q == k, 1 - RDIR(s, r, q), RDIR(s, r, q)), lambda q: RDIR(t, r, q))))
    c.ens('sides-swapped', im(z3.And(FR(t, f, 0) == FR(s, f, 1), FR(t, f, 1) == FR(s, f, 0))))
    if dirs:
        lo = RFL(s, o)
        kk, first = kfirst(c, s, lo, f, 'ko')
        c.ens('opposite-region', im(z3.Implies(z3.And(o != 0, exin(s, lo, f)), ex(c, kk, z3.And(first, bits(c, MAXPF3, lambda q: RDIR(t, o, q) == z3.If(q == kk, RDIR(s, r, k), RDIR(s, o, q)), lambda q: RDIR(t, o, q)))))))

@reg3('MR_Rev_FaceDir_i')
def _(c, r, i):
    region(c, r)
    s = c.pre
    c.req('index', z3.And(0 <= i, i < s.LEN(RFL(s, r))))
    f = rface(c, r, i)
    o = rev_pre(c, r, f, i)
    moddirs(c, r, o)
    c.mod(('FE', 16, 'ptr'), ADJ(s, f))
    c.allocates()
    yield
    rev_post(c, r, f, i, o)
    c.ens('done', c.res == 1)

@reg3('MR_Rev_FaceDir')
def _(c, r, f):
    region(c, r)
    s = c.pre
    l = RFL(s, r)
    side(c, f)
    o = beyond(s, r, f)
    c.req('r-on-its-side', elts(c, s, l, lambda i, x: z3.Implies(x == f, z3.If(RDIR(s, r, i) == 1, z3.And(FR(s, f, 0) == r, FR(s, f, 1) != r), z3.And(FR(s, f, 1) == r, FR(s, f, 0) != r)))))
    c.req('opposite-region', z3.Implies(o != 0, z3.And(good(c, s, o, RG), RDP(s, o) > 0, s.LEN(RFL(s, o)) <= MAXPF3)))
    c.assume(z3.Implies(o != 0, z3.And(sep(s, o, RG), OWN(RDP(s, o)) == o, KIND(RDP(s, o)) == 33)), WHY)
    moddirs(c, r, o)
    c.mod(('FE', 16, 'ptr'), ADJ(s, f))
    c.allocates()
    c.inv(lambda L: seen(L, s, l, lambda x: x != f))
    yield
    t = c.post
    found = c.res != 0
    c.ens('absent', z3.Not(found) == elts(c, s, l, lambda i, x: x != f))
    c.ens('absent-unchanged', z3.Implies(z3.Not(found), z3.And([bits(c, MAXPF3, lambda q, x=x: RDIR(t, x, q) == RDIR(s, x, q), lambda q, x=x: RDIR(t, x, q)) for x in (r,)] + [FR(t, f, 0) == FR(s, f, 0), FR(t, f, 1) == FR(s, f, 1)])))
    k, first = kfirst(c, s, l, f)
    c.ens('directions', z3.Implies(found, ex(c, k, z3.And(first, bits(c, MAXPF3, lambda q: RDIR(t, r, q) == z3.If(q == k, 1 - RDIR(s, r, q), RDIR(s, r, q)), lambda q: RDIR(t, r, q))))))
    c.ens('sides-swapped', z3.Implies(found, z3.And(c.res == 1, FR(t, f, 0) == FR(s, f, 1), FR(t, f, 1) == FR(s, f, 0))))
    lo = RFL(s, o)
    kk, fo = kfirst(c, s, lo, f, 'ko')
    c.ens('opposite-region', z3.Implies(z3.And(found, o != 0, exin(s, lo, f)), ex(c, kk, z3.And(fo, bits(c, MAXPF3, lambda q: RDIR(t, o, q) == z3.If(q == kk, z3.If(FR(s, f, 0) == r, 1, 0), RDIR(s, o, q)), lambda q: RDIR(t, o, q))))))

@reg3('MR_Replace_Face_i')
def _(c, r, i, f, d):
    region(c, r)
    s = c.pre
    l = rfaces(c, r)
    c.req('index', z3.And(0 <= i, i < s.LEN(l)))
    bit01(c, d)
    old = s.ELT(l, i)
    face(c, f)
    c.req('r-on-at-most-one-side', z3.Or(FR(s, old, 0) != r, FR(s, old, 1) != r))
    c.req('new-face-is-another', f != old)
    c.mod(('F', 48, 'i32'), r)
    modlist(c, l)
    moddirs(c, r)
    c.mod(('FE', 16, 'ptr'), ADJ(s, f))
    c.mod(('FE', 16, 'ptr'), ADJ(s, old))
    yield
    t = c.post
    keepwf(c, l)
    c.ens('count', t.LEN(l) == s.LEN(l))
    c.ens('faces', c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < s.LEN(l)), t.ELT(l, q) == z3.If(q == i, f, s.ELT(l, q))), lambda q: t.ELT(l, q)))
    dirs_ens(c, r, MAXPF3, lambda q: z3.If(q == i, d, RDIR(s, r, q)))
    c.ens('new-side', z3.And(FR(t, f, 1 - d) == r, FR(t, f, d) == FR(s, f, d)))
    c.ens('old-side', z3.And([FR(t, old, k) == z3.If(FR(s, old, k) == r, 0, FR(s, old, k)) for k in (0, 1)]))
    n = s.LEN(l)
    c.ens('type', RTYPE(t, r) == etype(n, lambda sz: nfaces_of(t, l, n, n, sz)))

@reg3('MR_Rem_Face')
def _(c, r, f):
    region(c, r)
    s = c.pre
    l = rfaces(c, r)
    n = s.LEN(l)
    face(c, f)
    c.req('r-on-at-most-one-side', z3.Or(FR(s, f, 0) != r, FR(s, f, 1) != r))
    c.mod(('F', 48, 'i32'), r)
    modlist(c, l)
    moddirs(c, r)
    c.mod(('FE', 16, 'ptr'), ADJ(s, f))
    c.inv(lambda L: seen(L, s, l, lambda x: x != f))
    def h(L):
        out = {}
        sc = L.scalars()
        for m, i in L.ints.items():
            for m2, k in sc.items():
                if m2 != m:
                    out[('!shift', m, m2)] = bits(c, MAXPF3, lambda q: RDIR(L.s, r, q) == RDIR(s, r, z3.If(z3.And(iv(k) <= q, q < iv(i)), q + 1, q)), lambda q: RDIR(L.s, r, q))
                    out[('le', m, m2)] = iv(k) <= iv(i)
        return out
    c.inv(h)
    yield
    t = c.post
    keepwf(c, l)
    c.ens('shrink', z3.Or(t.LEN(l) == n, t.LEN(l) == n - 1))
    c.ens('not-there', z3.Implies(t.LEN(l) == n, z3.And(elts(c, s, l, lambda i, x: x != f), elts(c, t, l, lambda i, x: x == s.ELT(l, i)),
          FR(t, f, 0) == FR(s, f, 0), FR(t, f, 1) == FR(s, f, 1), bits(c, MAXPF3, lambda q: RDIR(t, r, q) == RDIR(s, r, q), lambda q: RDIR(t, r, q)))))
    gone = t.LEN(l) != n
    k, G = firstpos(c, s, l, f, gone)
    c.ens('removed-faces', G(c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < n - 1), t.ELT(l, q) == s.ELT(l, z3.If(q < k, q, q + 1))), lambda q: t.ELT(l, q))))
    c.ens('removed-directions', G(bits(c, n - 1, lambda q: RDIR(t, r, q) == RDIR(s, r, z3.If(q < k, q, q + 1)), lambda q: RDIR(t, r, q))))
    c.ens('face-forgets-region', z3.Implies(gone, z3.And([FR(t, f, k) == z3.If(FR(s, f, k) == r, 0, FR(s, f, k)) for k in (0, 1)])))
    m = t.LEN(l)
    c.ens('type', z3.Implies(gone, RTYPE(t, r) == etype(m, lambda sz: nfaces_of(t, l, m, m, sz))))

# ---------------------------------------------------------------- building faces and regions
def newobj(c, *fams):
    o = c.new()
    for v in fams:
        c.mod(v, o)
    return o

def arrayof(c, a, n, ty='ptr'):
    """argument array a[0..n-1] exists and does not overlap mesh data"""
    c.req('array', a > 0)
    c.assume(KIND(a) == 98, 'argument arrays do not overlap mesh data')

@reg3('MR_Set_Faces')
def _(c, r, n, fs, ds):
    s = c.pre
    c.req('region', z3.And(r > 0, s.RT(r) == 0, ADJ(s, r) > 0))
    c.assume(z3.And(OWN(ADJ(s, r)) == iv(r), KIND(ADJ(s, r)) == 10 + RG), WHY)
    c.req('count', z3.And(0 <= n, n <= MAXPF3))
    arrayof(c, fs, n)
    arrayof(c, ds, n)
    def f(i): return s.elem(fs, i, 'ptr')
    def d(i): return s.elem(ds, i, 'i32')
    inr = lambda i: z3.And(0 <= i, i < n)
    c.req('faces', c.forall(1, lambda i: z3.Implies(inr(i), z3.And(good(c, s, f(i), F), s.LEN(FEL(s, f(i))) <= 64)), f))
    c.assume(c.forall(1, lambda i: z3.Implies(inr(i), sep(s, f(i), F)), f), WHY)
    c.req('directions', c.forall(1, lambda i: z3.Implies(inr(i), z3.And(d(i) >= 0, d(i) <= 1)), d))
    c.req('distinct', c.forall(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n), f(i) != f(j)), lambda i, j: z3.MultiPattern(f(i), f(j))))
    c.mod(('F', 0, 'ptr'), ADJ(s, r))
    c.mod(('F', 8, 'ptr'), ADJ(s, r))
    c.mod(('F', 48, 'i32'), r)
    c.mod(('FE', 16, 'ptr'))
    newobj(c, ('E', 'i32'), ('E', 4))
    newobj(c, 'LEN', 'NTOT', 'ELT', 'POS')
    c.allocates()
    def h(L):
        out = {}
        t = L.s
        l = RFL(t, r)
        for m, i in L.ints.items():
            i = iv(i)
            out[('len', m)] = z3.And(t.LEN(l) == i, t.NTOT(l) == i)
            out[('faces', m)] = c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < i), t.ELT(l, q) == f(q)), lambda q: t.ELT(l, q))
            out[('faces2', m)] = c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < i), t.ELT(l, q) == f(q)), f)
            out[('!dirs', m)] = bits(c, n, lambda q: RDIR(t, r, q) == z3.If(q < i, d(q), 0), lambda q: RDIR(t, r, q))
            out[('sides', m)] = c.forall(1, lambda q: z3.Implies(inr(q), z3.And([FR(t, f(q), k) == z3.If(z3.And(q < i, d(q) == 1 - k), r, FR(s, f(q), k)) for k in (0, 1)])), f)
        out[('others',)] = others(t)
        out[('wf',)] = z3.And(WF(c, t, l), l >= s.next, RDP(t, r) >= s.next)
        return out
    outside = z3.And(X0 > 0, X0 < s.next, c.forall(1, lambda i: z3.Implies(inr(i), ADJ(s, f(i)) != X0), f))
    def others(t):
        # the arbitrary adjacency record X0, outside the list, keeps its sides
        return z3.Implies(outside if not c.verifying else ALLOUT, z3.And([t.felem(X0, 16, k, 'ptr') == s.felem(X0, 16, k, 'ptr') for k in (0, 1)]))
    c.ghost(z3.Implies(ALLOUT, outside))
    c.inv(h)
    yield
    t = c.post
    l = RFL(t, r)
    c.ens('list', z3.And(l >= s.next, WF(c, t, l), RDP(t, r) >= s.next))
    c.ens('count', t.LEN(l) == n)
    c.ens('faces', c.forall(1, lambda q: z3.Implies(inr(q), t.ELT(l, q) == f(q)), lambda q: t.ELT(l, q)))
    c.ens('directions', bits(c, n, lambda q: RDIR(t, r, q) == d(q), lambda q: RDIR(t, r, q)))
    c.ens('sides', c.forall(1, lambda q: z3.Implies(inr(q), z3.And([FR(t, f(q), k) == z3.If(d(q) == 1 - k, r, FR(s, f(q), k)) for k in (0, 1)])), f))
    c.ens('other-faces', others(t))
    c.ens('type', RTYPE(t, r) == etype(n, lambda sz: nfaces_of(t, l, n, n, sz)))

@edit3('MF_Set_Edges')
def _(c, f, n, es, ds):
    s = c.pre
    c.req('face', z3.And(f > 0, s.RT(f) == 0, ADJ(s, f) > 0, FEL(s, f) == 0))
    c.assume(z3.And(OWN(ADJ(s, f)) == iv(f), KIND(ADJ(s, f)) == 10 + F), WHY)
    c.req('count', z3.And(0 <= n, n <= 31))
    arrayof(c, es, n)
    arrayof(c, ds, n)
    def e(i): return s.elem(es, i, 'ptr')
    def d(i): return s.elem(ds, i, 'i32')
    inr = lambda i: z3.And(0 <= i, i < n)
    c.req('edges', c.forall(1, lambda i: z3.Implies(inr(i), z3.And(good(c, s, e(i), E), s.NTOT(EFL(s, e(i))) < MAXL)), e))
    c.assume(c.forall(1, lambda i: z3.Implies(inr(i), sep(s, e(i), E)), e), WHY)
    c.req('directions', c.forall(1, lambda i: z3.Implies(inr(i), z3.And(d(i) >= 0, d(i) <= 1)), d))
    c.req('distinct', c.forall(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n), e(i) != e(j)), lambda i, j: z3.MultiPattern(e(i), e(j))))
    def old(i, j): return s.ELT(EFL(s, e(i)), j)
    c.req('new-face', c.forall(2, lambda i, j: z3.Implies(z3.And(inr(i), 0 <= j, j < s.LEN(EFL(s, e(i)))), old(i, j) != f), lambda i, j: z3.MultiPattern(e(i), old(i, j))))
    c.mod(('F', 0, 'i64'), ADJ(s, f))
    c.mod(('F', 8, 'ptr'), ADJ(s, f))
    for v in ('LEN', 'NTOT', 'ELT', 'POS'):
        c.mod(v)
    c.allocates()
    outside = z3.And(X0 > 0, X0 < s.next, c.forall(1, lambda i: z3.Implies(inr(i), EFL(s, e(i)) != X0), e))
    c.ghost(z3.Implies(ALLOUT, outside))
    def others(t):
        # the arbitrary list X0, not the face list of one of the edges, is untouched
        return z3.Implies(outside if not c.verifying else ALLOUT, z3.And(t.LEN(X0) == s.LEN(X0), t.NTOT(X0) == s.NTOT(X0), t.ex.sel(t.ex.getm(t.st, 'ELT'), X0) == s.ex.sel(s.ex.getm(s.st, 'ELT'), X0)))
    def lists_of(t, lim):
        def m(q): return EFL(s, e(q))
        return {'wf': c.forall(1, lambda q: z3.Implies(inr(q), WF(c, t, m(q))), e),
                'grow': c.forall(1, lambda q: z3.Implies(inr(q), z3.And(t.LEN(m(q)) == s.LEN(m(q)) + z3.If(q < lim, 1, 0), t.LEN(m(q)) <= t.NTOT(m(q)), t.NTOT(m(q)) <= s.NTOT(m(q)) + z3.If(q < lim, 1, 0))), e),
                'last': c.forall(1, lambda q: z3.Implies(z3.And(inr(q), q < lim), t.ELT(m(q), s.LEN(m(q))) == f), e),
                'kept': c.forall(2, lambda q, j: z3.Implies(z3.And(inr(q), 0 <= j, j < s.LEN(m(q))), t.ELT(m(q), j) == s.ELT(m(q), j)), lambda q, j: z3.MultiPattern(e(q), t.ELT(m(q), j)))}
    def h(L):
        out = {}
        t = L.s
        l = FEL(t, f)
        for m, i in L.ints.items():
            i = iv(i)
            out[('len', m)] = z3.And(t.LEN(l) == i, t.NTOT(l) == i)
            out[('edges', m)] = c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < i), t.ELT(l, q) == e(q)), lambda q: t.ELT(l, q))
            out[('!dirs', m)] = bits(c, NB, lambda q: FDIR(t, f, q) == z3.If(q < i, d(q), 0), lambda q: FDIR(t, f, q))
            for k, x in lists_of(t, i).items():
                out[(k, m)] = x
        out[('others',)] = others(t)
        out[('wf',)] = z3.And(WF(c, t, l), l >= s.next)
        return out
    c.inv(h)
    yield
    t = c.post
    l = FEL(t, f)
    c.ens('list', z3.And(l >= s.next, WF(c, t, l)))
    c.ens('count', t.LEN(l) == n)
    c.ens('edges', c.forall(1, lambda q: z3.Implies(inr(q), t.ELT(l, q) == e(q)), lambda q: t.ELT(l, q)))
    c.ens('directions', bits(c, n, lambda q: FDIR(t, f, q) == d(q), lambda q: FDIR(t, f, q)))
    for k, x in lists_of(t, n).items():
        c.ens('edge-faces-' + k, x)
    c.ens('other-lists', others(t))


# ---------------------------------------------------------------- deleting and restoring
VDEL, FDEL, RDEL = [], [], []
def keeping(c, keep, l, g, same=True):
    """with keep, a list that g does not say is edited stays as it was"""
    s, t = c.pre, c.post
    return z3.Implies(z3.And(keep != 0, z3.Not(g)), z3.And(t.LEN(l) == s.LEN(l), t.NTOT(l) == s.NTOT(l), elts(c, s, l, lambda i, x: t.ELT(l, i) == x), elts(c, t, l, lambda i, x: s.ELT(l, i) == x)))

@dec(VDEL, '_F1')('MV_Delete')
def _(c, v, keep):
    ent(c, V, v)
    l = VEL(c.pre, v)
    modlist(c, l)
    yield
    c.ens('kept', keeping(c, keep, l, z3.BoolVal(False)))
    c.ens('wf', z3.Implies(keep != 0, WF(c, c.post, l)))

def ends(c, e, room=False):
    s = c.pre
    for i in (0, 1):
        v = EV(s, e, i)
        c.req('ends', z3.Implies(v != 0, z3.And(good(c, s, v, V), s.NTOT(VEL(s, v)) < MAXL if room else True)))
        c.assume(z3.Implies(v != 0, sep(s, v, V)), WHY)
        c.assume(z3.And(OWN(VEL(s, v)) == iv(v), KIND(VEL(s, v)) == 20 + V), WHY)
    c.req('different-ends', z3.Or(EV(s, e, 0) == 0, EV(s, e, 0) != EV(s, e, 1)))

def alive(s, x): return s.DELD(x) == 0

@dec(VDEL, '_F1')('ME_Delete')
def _(c, e, keep):
    ent(c, E, e)
    s = c.pre
    ends(c, e)
    for i in (0, 1):
        modlist(c, z3.If(EV(s, e, i) == 0, 0, VEL(s, EV(s, e, i))))
    modlist(c, EFL(s, e))
    c.req('fields', s.ODIM(e) == 1)
    yield
    for i in (0, 1):
        v = EV(s, e, i)
        l = VEL(s, v)
        g = z3.And(v != 0, alive(s, e))
        lists_rem(c, l, e, g)
        c.ens('dead', z3.Implies(v != 0, keeping(c, iv(1), l, g)))
    c.ens('faces-kept', keeping(c, keep, EFL(s, e), z3.BoolVal(False)))
    c.ens('faces-wf', z3.Implies(keep != 0, WF(c, c.post, EFL(s, e))))

@dec(VDEL, '_F1')('ME_Restore')
def _(c, e):
    ent(c, E, e)
    s = c.pre
    ends(c, e, room=True)
    c.req('has-ends', z3.And(EV(s, e, 0) != 0, EV(s, e, 1) != 0))
    for i in (0, 1):
        modlist(c, VEL(s, EV(s, e, i)))
    c.mod('ODIM', e)
    c.mod('DELD', e)
    yield
    for i in (0, 1):
        lists_chkadd(c, VEL(s, EV(s, e, i)), e)
    c.ens('kind', z3.And(c.post.ODIM(e) == 1, z3.BoolVal(True) if getattr(c, 'sub', False) else c.post.DELD(e) == s.DELD(e)))

@dec(VDEL, '_F1')('MV_Restore')
def _(c, v):
    c.req('vertex', v > 0)
    c.mod('ODIM', v)
    c.mod('DELD', v)
    yield
    c.ens('kind', z3.And(c.post.ODIM(v) == 0, z3.BoolVal(True) if getattr(c, 'sub', False) else c.post.DELD(v) == c.pre.DELD(v)))

WH = z3.Function('WH', I, I)    # rigid: where the face stands in the face list of its q-th edge
def fedges(c, f, listed, room=False):
    """edges of f: good, distinct; listed: f stands exactly once in the face list of each; else not at all"""
    s = c.pre
    l = FEL(s, f)
    inr = lambda q: z3.And(l != 0, 0 <= q, q < s.LEN(l))
    e = lambda q: s.ELT(l, q)
    m = lambda q: EFL(s, e(q))
    c.req('edges', c.forall(1, lambda q: z3.Implies(inr(q), z3.And(good(c, s, e(q), E), s.NTOT(m(q)) < MAXL if room else True)), e))
    c.assume(c.forall(1, lambda q: z3.Implies(inr(q), sep(s, e(q), E)), e), WHY)
    c.req('distinct', c.forall(2, lambda i, j: z3.Implies(z3.And(inr(i), inr(j), i < j), e(i) != e(j)), lambda i, j: z3.MultiPattern(e(i), e(j))))
    old = lambda i, j: s.ELT(m(i), j)
    if listed is not None:
        c.req('listed', z3.Implies(listed, c.forall(1, lambda q: z3.Implies(inr(q), z3.And(0 <= WH(q), WH(q) < s.LEN(m(q)), s.ELT(m(q), WH(q)) == f)), e)))
        c.req('listed-once', z3.Implies(listed, c.forall(2, lambda i, j: z3.Implies(z3.And(inr(i), 0 <= j, j < s.LEN(m(i)), j != WH(i)), old(i, j) != f), lambda i, j: z3.MultiPattern(e(i), old(i, j)))))
    else:
        c.req('not-listed', c.forall(2, lambda i, j: z3.Implies(z3.And(inr(i), 0 <= j, j < s.LEN(m(i))), old(i, j) != f), lambda i, j: z3.MultiPattern(e(i), old(i, j))))
    return l, inr, e, m

def X0list(c, outside, ALL):
    """lists outside (a function of the list) are untouched: proved for the arbitrary list X0, so it holds for all"""
    s = c.pre
    def same(t, x):
        return z3.And(t.LEN(x) == s.LEN(x), t.NTOT(x) == s.NTOT(x), t.row('ELT', x) == s.row('ELT', x), t.row('POS', x) == s.row('POS', x))
    out = lambda x: z3.And(outside(x), *[f(x) for f in getattr(c, 'xout', [])])
    c.ghost(z3.Implies(ALL, out(X0)))
    if c.verifying:
        return lambda t: z3.Implies(ALL, same(t, X0))
    def call(t):
        x = z3.Int('xo')
        M = lambda v: t.row(v, x) if v in ('ELT', 'POS') else getattr(t, v)(x)
        body = z3.Implies(out(x), same(t, x))
        return z3.And([z3.ForAll([x], body, patterns=[M(v)]) for v in ('LEN', 'NTOT', 'ELT', 'POS')])
    return call

@dec(FDEL, '_F1')('MF_Delete')
def _(c, f, keep):
    s = c.pre
    c.req('face', z3.And(f > 0, s.RT(f) == 0, ADJ(s, f) > 0, z3.Or(FEL(s, f) == 0, WF(c, s, FEL(s, f)))))
    c.assume(z3.And(KIND(iv(f)) == F, OWN(ADJ(s, f)) == iv(f), KIND(ADJ(s, f)) == 10 + F, z3.Implies(FEL(s, f) != 0, z3.And(OWN(FEL(s, f)) == iv(f), KIND(FEL(s, f)) == 20 + F))), WHY)
    c.req('fields', s.ODIM(f) == 2)
    l, inr, e, m = fedges(c, f, alive(s, f))
    for v in ('LEN', 'NTOT', 'ELT', 'POS'):
        c.mod(v, ANY(z3.And(l != 0, alive(s, f))), l)
    outside = lambda x: z3.And(x > 0, x < s.next, x != l, c.forall(1, lambda q: z3.Implies(inr(q), m(q) != x), e))
    others = X0list(c, outside, ALLOUT)
    def state(t, lim):
        done = lambda q: z3.And(alive(s, f), q < lim)
        return {'wf': c.forall(1, lambda q: z3.Implies(inr(q), WF(c, t, m(q))), e),
                'len': c.forall(1, lambda q: z3.Implies(inr(q), z3.And(t.LEN(m(q)) == s.LEN(m(q)) - z3.If(done(q), 1, 0), t.NTOT(m(q)) == s.NTOT(m(q)))), e),
                'order': c.forall(2, lambda q, j: z3.Implies(z3.And(inr(q), 0 <= j, j < t.LEN(m(q))), t.ELT(m(q), j) == s.ELT(m(q), z3.If(z3.And(done(q), j >= WH(q)), j + 1, j))), lambda q, j: z3.MultiPattern(e(q), t.ELT(m(q), j))),
                'order2': c.forall(2, lambda q, j: z3.Implies(z3.And(inr(q), 0 <= j, j < s.LEN(m(q)), z3.Or(z3.Not(done(q)), j != WH(q))), t.ELT(m(q), z3.If(z3.And(done(q), j > WH(q)), j - 1, j)) == s.ELT(m(q), j)), lambda q, j: z3.MultiPattern(e(q), s.ELT(m(q), j)))}
    def h(L):
        out = {}
        t = L.s
        for n, i in L.ints.items():
            for k, x in state(t, iv(i)).items():
                out[(k, n)] = x
        out[('others',)] = others(t)
        out[('own',)] = z3.Implies(l != 0, z3.And(WF(c, t, l), t.LEN(l) == s.LEN(l), t.NTOT(l) == s.NTOT(l), c.forall(1, lambda q: z3.Implies(inr(q), t.ELT(l, q) == e(q)), lambda q: t.ELT(l, q))))
        return out
    c.inv(h)
    yield
    t = c.post
    n = z3.If(l == 0, 0, s.LEN(l))
    for k, x in state(t, n).items():
        c.ens('edge-faces-' + k, x)
    c.ens('other-lists', others(t))
    c.ens('own-edges', z3.Implies(z3.And(keep != 0, l != 0), z3.And(WF(c, t, l), t.LEN(l) == s.LEN(l), c.forall(1, lambda q: z3.Implies(inr(q), t.ELT(l, q) == e(q)), lambda q: t.ELT(l, q)))))

@dec(FDEL, '_F1')('MF_Restore')
def _(c, f):
    s = c.pre
    ent(c, F, f)
    l, inr, e, m = fedges(c, f, None, room=True)
    for v in ('LEN', 'NTOT', 'ELT', 'POS'):
        c.mod(v)
    c.mod('ODIM', f)
    c.mod('DELD', f)
    outside = lambda x: z3.And(x > 0, x < s.next, c.forall(1, lambda q: z3.Implies(inr(q), m(q) != x), e))
    others = X0list(c, outside, ALLOUT)
    def state(t, lim):
        done = lambda q: q < lim
        return {'wf': c.forall(1, lambda q: z3.Implies(inr(q), WF(c, t, m(q))), e),
                'len': c.forall(1, lambda q: z3.Implies(inr(q), z3.And(t.LEN(m(q)) == s.LEN(m(q)) + z3.If(done(q), 1, 0), t.NTOT(m(q)) <= s.NTOT(m(q)) + z3.If(done(q), 1, 0))), e),
                'last': c.forall(1, lambda q: z3.Implies(z3.And(inr(q), done(q)), t.ELT(m(q), s.LEN(m(q))) == f), e),
                'order': c.forall(2, lambda q, j: z3.Implies(z3.And(inr(q), 0 <= j, j < s.LEN(m(q))), t.ELT(m(q), j) == s.ELT(m(q), j)), lambda q, j: z3.MultiPattern(e(q), t.ELT(m(q), j)))}
    def h(L):
        out = {}
        t = L.s
        for n, i in L.ints.items():
            for k, x in state(t, iv(i)).items():
                out[(k, n)] = x
        out[('others',)] = others(t)
        out[('own',)] = z3.And(WF(c, t, l), t.LEN(l) == s.LEN(l), t.NTOT(l) == s.NTOT(l), c.forall(1, lambda q: z3.Implies(inr(q), t.ELT(l, q) == e(q)), lambda q: t.ELT(l, q)))
        return out
    c.inv(h)
    yield
    t = c.post
    for k, x in state(t, s.LEN(l)).items():
        c.ens('edge-faces-' + k, x)
    c.ens('other-lists', others(t))
    c.ens('own-edges', z3.And(WF(c, t, l), t.LEN(l) == s.LEN(l), c.forall(1, lambda q: z3.Implies(inr(q), t.ELT(l, q) == e(q)), lambda q: t.ELT(l, q))))
    c.ens('kind', z3.And(t.ODIM(f) == 2, z3.BoolVal(True) if getattr(c, 'sub', False) else t.DELD(f) == s.DELD(f)))

def rsides(c, r):
    """the faces of r are good and pairwise different"""
    s = c.pre
    l = RFL(s, r)
    inr = lambda q: z3.And(l != 0, 0 <= q, q < s.LEN(l))
    f = lambda q: s.ELT(l, q)
    c.req('faces', c.forall(1, lambda q: z3.Implies(inr(q), z3.And(f(q) > 0, s.RT(f(q)) == 0, ADJ(s, f(q)) > 0)), f))
    c.assume(c.forall(1, lambda q: z3.Implies(inr(q), z3.And(KIND(iv(f(q))) == F, OWN(ADJ(s, f(q))) == iv(f(q)), KIND(ADJ(s, f(q))) == 10 + F)), f), WHY)
    c.req('distinct', c.forall(2, lambda i, j: z3.Implies(z3.And(inr(i), inr(j), i < j), f(i) != f(j)), lambda i, j: z3.MultiPattern(f(i), f(j))))
    return l, inr, f

def X0side(c, outside):
    s = c.pre
    c.ghost(z3.Implies(ALLOUT, outside))
    return lambda t: z3.Implies(outside if not c.verifying else ALLOUT, z3.And([t.felem(X0, 16, k, 'ptr') == s.felem(X0, 16, k, 'ptr') for k in (0, 1)]))

@dec(RDEL, '_F1', '_F1F3R3R4')('MR_Delete')
def _(c, r, keep):
    s = c.pre
    l = RFL(s, r)
    c.req('region', z3.And(r > 0, s.RT(r) == 0, ADJ(s, r) > 0, z3.Or(l == 0, WF(c, s, l))))
    c.assume(z3.And(KIND(iv(r)) == RG, OWN(ADJ(s, r)) == iv(r), KIND(ADJ(s, r)) == 10 + RG, z3.Implies(l != 0, z3.And(OWN(l) == iv(r), KIND(l) == 20 + RG))), WHY)
    c.req('fields', s.ODIM(r) == 3)
    l, inr, f = rsides(c, r)
    c.ghost(s.POS(l, 0) == 0)               # by definition: no entry stands before position 0
    c.mod(('FE', 16, 'ptr'), ANY(z3.And(l != 0, alive(s, r))))
    modlist(c, l)
    outside = z3.And(X0 > 0, X0 < s.next, c.forall(1, lambda q: z3.Implies(inr(q), ADJ(s, f(q)) != X0), f))
    others = X0side(c, outside)
    def state(t, lim):
        done = lambda q: z3.And(alive(s, r), q < lim)
        return {'sides': c.forall(1, lambda q: z3.Implies(inr(q), z3.And(
            FR(t, f(q), 0) == z3.If(z3.And(done(q), FR(s, f(q), 0) == r), 0, FR(s, f(q), 0)),
            FR(t, f(q), 1) == z3.If(z3.And(done(q), FR(s, f(q), 0) != r, FR(s, f(q), 1) == r), 0, FR(s, f(q), 1)))), f)}
    def h(L):
        out = {}
        t = L.s
        for n, i in L.ints.items():
            pos = s.POS(l, iv(i))
            out[('rng', n)] = z3.And(iv(i) >= 0, iv(i) <= s.NTOT(l))
            for k, x in state(t, pos).items():
                out[(k, n)] = x
            for k, x in state(t, iv(i)).items():
                out[('i' + k, n)] = x
        out[('others',)] = others(t)
        return out
    c.inv(h)
    yield
    t = c.post
    n = z3.If(l == 0, 0, s.LEN(l))
    for k, x in state(t, n).items():
        c.ens('face-' + k, x)
    c.ens('other-faces', others(t))
    c.ens('own-faces', z3.Implies(l != 0, keeping(c, keep, l, z3.BoolVal(False))))
    c.ens('own-wf', z3.Implies(z3.And(keep != 0, l != 0), WF(c, t, l)))

@dec(RDEL, '_F1', '_F1F3R3R4')('MR_Restore')
def _(c, r):
    s = c.pre
    region(c, r)
    c.req('region', z3.And(RDP(s, r) > 0, s.LEN(RFL(s, r)) <= MAXPF3))
    l, inr, f = rsides(c, r)
    c.mod(('FE', 16, 'ptr'))
    outside = z3.And(X0 > 0, X0 < s.next, c.forall(1, lambda q: z3.Implies(inr(q), ADJ(s, f(q)) != X0), f))
    others = X0side(c, outside)
    def state(t, lim):
        return {'sides': c.forall(1, lambda q: z3.Implies(inr(q), z3.And([FR(t, f(q), k) == z3.If(z3.And(q < lim, RDIR(s, r, q) == 1 - k), r, FR(s, f(q), k)) for k in (0, 1)])), f)}
    def h(L):
        out = {}
        for n, i in L.ints.items():
            for k, x in state(L.s, iv(i)).items():
                out[(k, n)] = x
        out[('others',)] = others(L.s)
        return out
    c.inv(h)
    yield
    for k, x in state(c.post, s.LEN(l)).items():
        c.ens('face-' + k, x)
    c.ens('other-faces', others(c.post))
