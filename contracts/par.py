"""Contracts for the parallel adjacency records of a mesh (src/base/Mesh.c).

Flags: one word per partition, bit 2k = has ghosts of kind k from it, bit 2k+1 = has overlap entities of kind k on it.
Receive record: [0] number n of ghost partitions, [1..n] the partitions, [1+n+4j+k] number of kind k to be received from the j-th."""
from verify import *
from sym import BIT
from lists import MAXL
from topo import KIND, OWN, I0, J0, K0

CONCRETE = {}
PAR = []
P0, Q0 = z3.Int('P0'), z3.Int('Q0')
WHY = 'the flag words and the receive record of a mesh are different blocks of its own'

def reg(n, **kw):
    def d(g):
        PAR.append(n)
        return contract(n, bits=True, **kw)(g)
    return d

def FLG(s, m): return s.fld(m, 136, 'ptr')
def REC(s, m): return s.fld(m, 144, 'ptr')
def MY(s, m): return s.fld(m, 124, 'i32')
def NP(s, m): return s.fld(m, 128, 'i32')
def W(s, m, p): return s.elem(FLG(s, m), p, 'i32')
def BT(s, m, p, b): return BIT(W(s, m, p), b)
def OR4(f, o): return z3.If(z3.Or(*[f(2 * k + o) == 1 for k in range(4)]), 1, 0)
def AND4(f, o): return z3.If(z3.And(*[f(2 * k + o) == 1 for k in range(4)]), 1, 0)
def R(s, m, i): return s.elem(REC(s, m), i, 'i32')
def NR(s, m): return R(s, m, 0)
def CNTR(s, m, j, k): return s.elem(REC(s, m), 1 + NR(s, m) + 4 * j + k, 'i32')

def mesh(c, m, flags=True):
    s = c.pre
    c.req('mesh', m > 0)
    c.assume(z3.And(KIND(iv(m)) == 50, z3.Implies(FLG(s, m) != 0, KIND(FLG(s, m)) == 70), z3.Implies(REC(s, m) != 0, KIND(REC(s, m)) == 71)), WHY)
    c.req('partitions', z3.And(NP(s, m) >= 0, NP(s, m) < MAXL, MY(s, m) >= 0))
    c.req('flag-room', z3.Implies(FLG(s, m) != 0, s.CAP(FLG(s, m)) >= 4 * NP(s, m)))

def recok(c, s, m):
    r = REC(s, m)
    return z3.Implies(r != 0, z3.And(NR(s, m) >= 0, NR(s, m) < MAXL, s.CAP(r) >= 4 * (1 + 5 * NR(s, m))))

@reg('MESH_Set_Prtn', bounds=True)
def _(c, m, p, n):
    mesh(c, m)
    s = c.pre
    c.req('number', z3.And(0 <= p, p < n, n < MAXL))
    c.mod(('F', 124, 'i32'), m)
    c.mod(('F', 128, 'i32'), m)
    c.mod(('F', 136, 'ptr'), m)
    c.mod(('E', 'i32'), FRESH)
    c.mod(('G', 'CAP'), FRESH)
    c.allocates()
    yield
    t = c.post
    c.ens('partition', z3.And(MY(t, m) == p, NP(t, m) == n))
    c.ens('flags', FLG(t, m) != 0)
    c.ens('no-flag-at-first', z3.Implies(z3.And(FLG(s, m) == 0, 0 <= P0, P0 < n), W(t, m, P0) == 0))
    c.ens('flags-kept', z3.Implies(FLG(s, m) != 0, z3.And(FLG(t, m) == FLG(s, m), W(t, m, P0) == W(s, m, P0))))

@reg('MESH_Prtn')
def _(c, m):
    c.req('mesh', m > 0)
    yield
    c.ens('partition', c.res == MY(c.pre, m))

@reg('MESH_ParallelAdj_Current')
def _(c, m):
    c.req('mesh', m > 0)
    yield
    c.ens('current', c.res == c.pre.fld(m, 132, 'i32'))

for _n, _v in (('Current', 1), ('Stale', 0)):
    @reg('MESH_Mark_ParallelAdj_' + _n)
    def _(c, m, v=_v):
        c.req('mesh', m > 0)
        c.mod(('F', 132, 'i32'), m)
        yield
        c.ens('mark', c.post.fld(m, 132, 'i32') == v)

for _n, _o in (('Ghosts_From', 0), ('Overlaps_On', 1)):
    @reg('MESH_Flag_Has_%s_Prtn' % _n, bounds=True)
    def _(c, m, p, t, o=_o):
        mesh(c, m)
        s = c.pre
        c.req('partition', z3.And(0 <= p, p < NP(s, m), FLG(s, m) != 0))
        c.req('kind', z3.And(t >= 0, t <= 6))
        c.mod(('E', 'i32'), FLG(s, m))
        c.ghost(z3.And(K0 >= 0, K0 < 32))
        yield
        u = c.post
        same = BT(u, m, P0, K0) == BT(s, m, P0, K0)
        hit = z3.And(iv(P0) == p, z3.Or(z3.And(t <= 3, K0 == 2 * t + o), z3.And(t == 5, K0 < 8, K0 % 2 == o)), t != 4, t != 6)
        if o == 0:
            hit = z3.And(hit, p != MY(s, m))
        c.ens('flag-set', z3.Implies(hit, BT(u, m, P0, K0) == 1))
        c.ens('others-kept', z3.Implies(z3.Not(hit), same))

    @reg('MESH_Has_%s_Prtn' % _n, bounds=True)
    def _(c, m, p, t, o=_o):
        mesh(c, m)
        s = c.pre
        c.req('partition', z3.And(0 <= p, p < NP(s, m)))
        c.req('kind', z3.And(t >= 0, t <= 6))
        yield
        f = lambda b: BT(s, m, p, b)
        c.ens('flag', iv(c.res) == z3.If(z3.Or(FLG(s, m) == 0, t == 4), 0, z3.If(t == 6, OR4(f, o), z3.If(t == 5, AND4(f, o), f(2 * t + o)))))

AIIS = z3.ArraySort(z3.IntSort(), z3.IntSort())
GCA = z3.Function('GCA', AIIS, z3.IntSort(), z3.IntSort())
def words(s, m):
    w = W(s, m, z3.Int('q'))
    assert w.decl().kind() == z3.Z3_OP_SELECT
    return w.arg(0)
def anyw(w): return z3.Or(*[BIT(w, 2 * k) == 1 for k in range(4)])
def anyg(s, m, p): return z3.And(FLG(s, m) != 0, anyw(W(s, m, p)))
def GC(s, m, q): return z3.If(FLG(s, m) == 0, z3.IntVal(0), GCA(words(s, m), iv(q)))
def defGC(c, s, m):
    """GCA(words, q): how many of the first q partitions are ghost partitions (ghost, defined by recursion)"""
    a = words(s, m)
    q = z3.Int('q')
    c.ghost(z3.And(GCA(a, 0) == 0, GCA(a, iv(NP(s, m))) >= 0, GCA(a, iv(NP(s, m))) <= NP(s, m)))
    c.ghost(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < NP(s, m)), z3.And(GCA(a, q) >= 0, GCA(a, q) <= q, GCA(a, q + 1) <= GCA(a, iv(NP(s, m))), GCA(a, q + 1) == GCA(a, q) + z3.If(anyw(a[q]), 1, 0))), patterns=[a[q]]))

def recfull(c, t, s, m):
    only = lambda j: z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= R(t, m, 1 + j), R(t, m, 1 + j) < NP(s, m), anyg(s, m, R(t, m, 1 + j)), GC(s, m, R(t, m, 1 + j)) == j))
    """the receive record in state t lists exactly the ghost partitions of state s, ascending, with zero counts"""
    n = NR(t, m)
    j, k = z3.Ints('j k')
    a = z3.And(REC(t, m) >= s.next, n == GC(s, m, NP(s, m)), recok(c, t, m))
    return [('number', a),
            ('every-ghost-partition', z3.Implies(z3.And(0 <= P0, P0 < NP(s, m), anyg(s, m, P0)), z3.And(0 <= GC(s, m, P0), GC(s, m, P0) < n, R(t, m, 1 + GC(s, m, P0)) == P0))),
            ('only-ghost-partitions', only(J0) if c.verifying else c.forall(1, only, lambda j: R(t, m, 1 + j))),
            ('zero-counts', z3.Implies(z3.And(0 <= J0, J0 < n, 0 <= K0, K0 <= 3), CNTR(t, m, J0, K0) == 0))]

def modrec(c, m):
    c.mod(('F', 144, 'ptr'), m)
    c.mod(('E', 'i32'), FRESH)
    c.mod(('G', 'CAP'), FRESH)
    c.allocates()

@reg('MESH_Init_Par_Recv_Info', bounds=True)
def _(c, m):
    mesh(c, m)
    s = c.pre
    defGC(c, s, m)
    modrec(c, m)
    def h(LV):
        t = LV.s
        out = {}
        q = z3.Int('q')
        if LV.fresh:
            for f in LV.fresh[-1:]:
                out['rec'] = z3.And(REC(t, m) == f, NR(t, m) == GC(s, m, NP(s, m)), t.CAP(iv(f)) >= 4 * (1 + 5 * NR(t, m)))
                out['zero'] = z3.ForAll([q], z3.Implies(q > NR(t, m), t.elem(f, q, 'i32') == 0), patterns=[t.elem(f, q, 'i32')])
                for n, i in LV.ints.items():
                    out['all', n] = z3.Implies(z3.And(0 <= P0, P0 < iv(i), anyg(s, m, P0)), z3.And(0 <= GC(s, m, P0), GC(s, m, P0) < GC(s, m, i), t.elem(f, 1 + GC(s, m, P0), 'i32') == P0))
                    x = t.elem(f, 1 + J0, 'i32')
                    out['only', n] = z3.Implies(z3.And(0 <= J0, J0 < GC(s, m, i)), z3.And(0 <= x, x < i, anyg(s, m, x), GC(s, m, x) == J0))
        for n, i in LV.ints.items():
            out['rng', n] = z3.And(iv(i) >= 0, iv(i) <= NP(s, m))
            for n2, j in LV.ints.items():
                if n2 != n:
                    out['cnt', n, n2] = iv(j) == GC(s, m, i)
        return out
    c.inv(h)
    yield
    for l, f in recfull(c, c.post, s, m):
        c.ens(l, f)

@reg('MESH_Num_GhostPrtns', bounds=True)
def _(c, m):
    mesh(c, m)
    s = c.pre
    c.req('record', recok(c, s, m))
    defGC(c, s, m)
    modrec(c, m)
    yield
    t = c.post
    c.ens('number', c.res == NR(t, m))
    c.ens('kept', z3.Implies(REC(s, m) != 0, z3.And(REC(t, m) == REC(s, m), R(t, m, J0) == R(s, m, J0))))
    for l, f in recfull(c, t, s, m):
        c.ens(l, z3.Implies(REC(s, m) == 0, f))

@reg('MESH_GhostPrtns', bounds=True)
def _(c, m, out):
    mesh(c, m)
    s = c.pre
    c.req('record', z3.And(REC(s, m) != 0, recok(c, s, m)))
    c.req('room', z3.And(out > 0, s.CAP(iv(out)) >= 4 * NR(s, m)))
    c.assume(z3.And(iv(out) != REC(s, m), iv(out) != FLG(s, m)), 'the caller\'s array is not part of the mesh')
    c.mod(('E', 'i32'), out)
    yield
    c.ens('partitions', z3.Implies(z3.And(0 <= J0, J0 < NR(s, m)), c.post.elem(out, J0, 'i32') == R(s, m, 1 + J0)))

def distinct(c, s, m):
    return c.forall(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < NR(s, m)), R(s, m, 1 + i) != R(s, m, 1 + j)), lambda i, j: z3.MultiPattern(R(s, m, 1 + i), R(s, m, 1 + j)))

def scan(m, p):
    def h(LV):
        t = LV.s
        q = z3.Int('q')
        out = {}
        for n, i in LV.ints.items():
            out['rng', n] = z3.And(iv(i) >= 0, iv(i) <= NR(t, m))
            out['seen', n] = z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < i), R(t, m, 1 + q) != p), patterns=[R(t, m, 1 + q)])
        return out
    return h

@reg('MESH_Set_Num_Recv_From_Prtn', bounds=True)
def _(c, m, p, k, num):
    mesh(c, m)
    s = c.pre
    c.req('record', recok(c, s, m))
    c.req('distinct', z3.Implies(REC(s, m) != 0, distinct(c, s, m)))
    defGC(c, s, m)
    modrec(c, m)
    c.mod(('E', 'i32'), REC(s, m))
    c.inv(scan(m, p))
    yield
    t = c.post
    ok = z3.And(0 <= k, k <= 3)
    old = z3.If(REC(s, m) == 0, z3.IntVal(0), CNTR(s, m, J0, K0))
    c.ens('record', recok(c, t, m))
    c.ens('partitions-kept', z3.Implies(REC(s, m) != 0, z3.And(REC(t, m) == REC(s, m), NR(t, m) == NR(s, m), z3.Implies(z3.And(0 <= J0, J0 <= NR(s, m)), R(t, m, J0) == R(s, m, J0)))))
    n = NR(t, m)
    c.ens('count', z3.Implies(z3.And(0 <= J0, J0 < n, 0 <= K0, K0 <= 3), CNTR(t, m, J0, K0) == z3.If(z3.And(ok, R(t, m, 1 + J0) == p, k == K0), iv(num), old)))
    for l, f in recfull(c, t, s, m)[:3]:
        c.ens('made-' + l, z3.Implies(REC(s, m) == 0, f))

@reg('MESH_Num_Recv_From_Prtn', bounds=True)
def _(c, m, p, k):
    mesh(c, m)
    s = c.pre
    c.req('record', recok(c, s, m))
    c.req('distinct', z3.Implies(REC(s, m) != 0, distinct(c, s, m)))
    c.inv(scan(m, p))
    yield
    n = NR(s, m)
    c.ens('count', z3.Implies(z3.And(0 <= J0, J0 < n, R(s, m, 1 + J0) == p, 0 <= k, k <= 3, REC(s, m) != 0), c.res == z3.If(p == MY(s, m), 0, CNTR(s, m, J0, k))))
    q = z3.Int('q')
    none = z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), R(s, m, 1 + q) != p), patterns=[R(s, m, 1 + q)])
    c.ens('none', z3.Implies(z3.Or(k < 0, k > 3, none), c.res == 0))
