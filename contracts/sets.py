"""Contracts for mesh sets (src/base/MSet.c and the set list in src/base/Mesh.c).

Set records are concrete, lists are abstract.  PO(l,x) is the position of x in a list without duplicates."""
from verify import *
import lists
from lists import WF, MAXL, elts
from topo import KIND, OWN, I0, J0, K0

CONCRETE = {}
ONE, ALG = [], []           # operations on one set; set algebra and the list of sets of a mesh
PO = z3.Function('PO', z3.IntSort(), z3.IntSort(), z3.IntSort())
WHY = 'sets, their lists and the mesh are different objects; a list belongs to one set'
VIEWS = ('LEN', 'NTOT', 'ELT', 'POS')
NM, ME_, DIM, LST = 0, 8, 16, 24
SL = 72             # list of sets of a mesh

def reg(n, lst, **kw):
    def d(g):
        lst.append(n)
        return contract(n, **kw)(g)
    return d

def EL(s, st): return s.fld(st, LST, 'ptr')
def MSH(s, st): return s.fld(st, ME_, 'ptr')
def ED(s, st): return s.fld(st, DIM, 'i32')

def theset(c, st, nodup=False):
    s = c.pre
    l = EL(s, st)
    c.req('set', z3.And(st > 0, WF(c, s, l)))
    c.assume(z3.And(KIND(iv(st)) == 70, KIND(l) == 71, OWN(l) == iv(st)), WHY)
    c.ghost(s.POS(l, 0) == 0)           # by definition: no entry stands before position 0
    if nodup:
        c.req('no-duplicates', c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < s.LEN(l)), PO(l, s.ELT(l, i)) == i), lambda i: s.ELT(l, i)))
    return l

def mods(c, l):
    for v in VIEWS:
        c.mod(v, l)

def ex1(c, s, l, f):
    """some position w of list l satisfies f(w)"""
    w = z3.Int('w') if c.verifying else c.ex.fresh('w')
    g = z3.And(0 <= w, w < s.LEN(l), f(w))
    return z3.Exists([w], g, patterns=[s.ELT(l, w)]) if c.verifying else g

def same(c, l, cond):
    s, t = c.pre, c.post
    c.ens('same', z3.Implies(cond, z3.And(t.LEN(l) == s.LEN(l), t.NTOT(l) == s.NTOT(l), elts(c, t, l, lambda k, v: v == s.ELT(l, k)))))

def seq(c, l, n, f, tag, cond=True):
    """list l has n entries, f(k) at position k"""
    t = c.post
    c.ens(tag, z3.Implies(cond, z3.And(WF(c, t, l), t.LEN(l) == n, elts(c, t, l, lambda k, v: v == f(k)))))

def result(c, st):
    c.ens('result', z3.And(c.res == st, EL(c.post, st) == EL(c.pre, st)))

def room(c, l, by=1):
    c.req('room', z3.And(c.pre.LEN(l) < MAXL, c.pre.NTOT(l) < MAXL))

def adding(c, st, e):
    l = theset(c, st)
    c.req('entry', e > 0)
    room(c, l)
    c.mod(('F', LST, 'ptr'), st)
    mods(c, l)
    return l

@reg('MSet_Add', ONE)
def _(c, st, e):
    l = adding(c, st, e)
    yield
    s = c.pre
    n = s.LEN(l)
    result(c, st)
    seq(c, l, n + 1, lambda k: z3.If(k == n, iv(e), s.ELT(l, k)), 'appended')
    c.ens('ntot', c.post.NTOT(l) == s.NTOT(l) + 1)

@reg('MSet_ChknAdd', ONE)
def _(c, st, e):
    l = adding(c, st, e)
    yield
    s, t = c.pre, c.post
    n = s.LEN(l)
    result(c, st)
    grown = t.LEN(l) != n
    seq(c, l, n + 1, lambda k: z3.If(k == n, iv(e), s.ELT(l, k)), 'appended', grown)
    c.ens('absent', z3.Implies(grown, elts(c, s, l, lambda i, v: v != e)))
    c.ens('present', z3.Implies(z3.Not(grown), ex1(c, s, l, lambda w: s.ELT(l, w) == e)))
    same(c, l, z3.Not(grown))

@reg('MSet_Inserti', ONE)
def _(c, st, e, i):
    l = adding(c, st, e)
    s = c.pre
    c.req('index', z3.And(i >= 0, i <= s.LEN(l)))
    yield
    result(c, st)
    seq(c, l, s.LEN(l) + 1, lambda k: z3.If(k < i, s.ELT(l, k), z3.If(k == i, iv(e), s.ELT(l, k - 1))), 'inserted')

@reg('MSet_Insert', ONE)
def _(c, st, e, b):
    l = adding(c, st, e)
    yield
    s, t = c.pre, c.post
    n = s.LEN(l)
    result(c, st)
    grown = t.LEN(l) != n
    seq(c, l, n + 1, lambda k: z3.If(k == n, iv(e), s.ELT(l, k)), 'append', b == 0)
    c.ens('absent', z3.Implies(z3.And(b != 0, z3.Not(grown)), elts(c, s, l, lambda i, v: v != b)))
    c.ens('before', z3.Implies(z3.And(b != 0, grown), ex1(c, s, l, lambda w: z3.And(s.ELT(l, w) == b, t.LEN(l) == n + 1,
        elts(c, t, l, lambda k, v: v == z3.If(k < w, s.ELT(l, k), z3.If(k == w, iv(e), s.ELT(l, k - 1)))), elts(c, s, l, lambda k, v: z3.Implies(k < w, v != b))))))

def gone(c, l, w):
    s, t = c.pre, c.post
    return z3.And(t.LEN(l) == s.LEN(l) - 1, elts(c, t, l, lambda k, v: v == z3.If(k < w, s.ELT(l, k), s.ELT(l, k + 1))))

@reg('MSet_Rem', ONE)
def _(c, st, e):
    l = theset(c, st)
    c.req('entry', e > 0)
    mods(c, l)
    yield
    s, t = c.pre, c.post
    c.ens('wf', z3.And(WF(c, t, l), z3.Or(c.res == 0, c.res == 1)))
    c.ens('absent', z3.Implies(c.res == 0, elts(c, s, l, lambda i, v: v != e)))
    same(c, l, c.res == 0)
    c.ens('removed', z3.Implies(c.res == 1, ex1(c, s, l, lambda w: z3.And(s.ELT(l, w) == e, gone(c, l, w), elts(c, s, l, lambda k, v: z3.Implies(k < w, v != e))))))

@reg('MSet_Remi', ONE)
def _(c, st, i):
    l = theset(c, st)
    c.req('index', i >= 0)
    mods(c, l)
    yield
    s, t = c.pre, c.post
    c.ens('wf', WF(c, t, l))
    c.ens('result', c.res == z3.If(i < s.LEN(l), 1, 0))
    same(c, l, i >= s.LEN(l))
    c.ens('removed', z3.Implies(i < s.LEN(l), gone(c, l, i)))

@reg('MSet_Replace', ONE)
def _(c, st, e, n):
    l = theset(c, st)
    c.req('entries', z3.And(e > 0, n > 0))
    mods(c, l)
    yield
    s, t = c.pre, c.post
    c.ens('wf', z3.And(WF(c, t, l), t.LEN(l) == s.LEN(l), z3.Or(c.res == 0, c.res == 1)))
    c.ens('absent', z3.Implies(c.res == 0, elts(c, s, l, lambda i, v: v != e)))
    same(c, l, c.res == 0)
    c.ens('replaced', z3.Implies(c.res == 1, ex1(c, s, l, lambda w: z3.And(s.ELT(l, w) == e, elts(c, t, l, lambda k, v: v == z3.If(k == w, iv(n), s.ELT(l, k))), elts(c, s, l, lambda k, v: z3.Implies(k < w, v != e))))))

@reg('MSet_Replacei', ONE)
def _(c, st, i, n):
    l = theset(c, st)
    s = c.pre
    c.req('index', z3.And(i >= 0, i < s.LEN(l), n > 0))
    mods(c, l)
    yield
    c.ens('result', c.res == 1)
    seq(c, l, s.LEN(l), lambda k: z3.If(k == i, iv(n), s.ELT(l, k)), 'replaced')

@reg('MSet_Contains', ONE)
def _(c, st, e):
    l = theset(c, st)
    c.req('entry', e > 0)
    yield
    s = c.pre
    c.ens('bool', z3.Or(c.res == 0, c.res == 1))
    c.ens('no', z3.Implies(c.res == 0, elts(c, s, l, lambda i, v: v != e)))
    c.ens('yes', z3.Implies(c.res != 0, ex1(c, s, l, lambda w: s.ELT(l, w) == e)))

@reg('MSet_Locate', ONE)
def _(c, st, e):
    l = theset(c, st)
    yield from REG.contracts['List_Locate'].gen(c, l, e)

@reg('MSet_Entry', ONE)
def _(c, st, i):
    l = theset(c, st)
    s = c.pre
    c.req('index', i >= 0)
    yield
    c.ens('entry', c.res == z3.If(i < s.LEN(l), s.ELT(l, i), 0))

@reg('MSet_Next_Entry', ONE)
def _(c, st, ip):
    l = theset(c, st)
    s = c.pre
    x = s.at(ip, 0, 'i32')
    if c.verifying:
        c.req('out', iv(ip if not isinstance(ip, P) else ip.obj) > 0)
    c.req('idx', z3.And(x >= 0, x <= s.NTOT(l)))
    c.mod(('E', 'i32'), ip.obj if isinstance(ip, P) else ip)
    c.cell(ip if not isinstance(ip, P) else ip.obj)
    yield
    t = c.post
    y = t.at(ip, 0, 'i32')
    p = s.POS(l, x)
    c.ens('pos', z3.And(p >= 0, p <= s.LEN(l)))
    c.ens('end', z3.Implies(p >= s.LEN(l), c.res == 0))
    c.ens('next', z3.Implies(p < s.LEN(l), z3.And(p >= 0, c.res != 0, c.res == s.ELT(l, p))))
    c.ens('advance', z3.Implies(p < s.LEN(l), z3.And(y > x, y <= s.NTOT(l), s.POS(l, y) == p + 1)))

@reg('MSet_Num_Entries', ONE)
def _(c, st):
    l = theset(c, st)
    yield
    c.ens('count', c.res == c.pre.LEN(l))

for nm, off, ty in (('MSet_EntDim', DIM, 'i32'), ('MSet_Mesh', ME_, 'ptr')):
    @reg(nm, ONE)
    def _(c, st, off=off, ty=ty):
        c.req('set', st > 0)
        yield
        c.ens('value', c.res == c.pre.fld(st, off, ty))

# ---- the sets of a mesh ----
def setlist(c, m):
    s = c.pre
    al = s.fld(m, SL, 'ptr')
    c.req('mesh', m > 0)
    c.req('sets', z3.Implies(al != 0, WF(c, s, al)))
    c.ghost(s.POS(al, 0) == 0)
    c.assume(z3.And(KIND(iv(m)) == 50, z3.Implies(al != 0, KIND(al) == 72)), WHY)
    return al, z3.If(al == 0, 0, s.LEN(al))

@reg('MESH_Num_MSets', ALG)
def _(c, m):
    al, n = setlist(c, m)
    yield
    c.ens('count', c.res == n)

@reg('MESH_MSet', ALG)
def _(c, m, i):
    al, n = setlist(c, m)
    c.req('index', z3.And(i >= 0, z3.Implies(al != 0, i < n)))
    yield
    c.ens('entry', c.res == z3.If(al == 0, 0, c.pre.ELT(al, i)))

@reg('MESH_Next_MSet', ALG)
def _(c, m, ip):
    al, n = setlist(c, m)
    s = c.pre
    x = s.at(ip, 0, 'i32')
    if c.verifying:
        c.req('out', iv(ip if not isinstance(ip, P) else ip.obj) > 0)
    c.req('idx', z3.Implies(al != 0, z3.And(x >= 0, x <= s.NTOT(al))))
    c.mod(('E', 'i32'), ip.obj if isinstance(ip, P) else ip)
    c.cell(ip if not isinstance(ip, P) else ip.obj)
    yield
    t = c.post
    y = t.at(ip, 0, 'i32')
    p = s.POS(al, x)
    more = z3.And(al != 0, p < n)
    c.ens('end', z3.Implies(z3.Not(more), c.res == 0))
    c.ens('next', z3.Implies(more, z3.And(c.res != 0, c.res == s.ELT(al, p))))
    c.ens('advance', z3.Implies(more, z3.And(y > x, y <= s.NTOT(al), s.POS(al, y) == p + 1)))

def listmods(c, m, al):
    c.mod(('F', SL, 'ptr'), m)
    for v in VIEWS:
        c.mod(v, al)
        c.mod(v, FRESH)
    c.allocates()

def listed(c, m, al, n, st, cond=True):
    s, t = c.pre, c.post
    l2 = t.fld(m, SL, 'ptr')
    c.ens('listed', z3.Implies(cond, z3.And(l2 > 0, WF(c, t, l2), z3.Implies(al != 0, l2 == al), t.LEN(l2) == n + 1, t.ELT(l2, n) == st)))
    c.ens('listed-kept', z3.Implies(z3.And(cond, al != 0), elts(c, s, al, lambda i, v: t.ELT(l2, i) == v)))

@reg('MESH_Add_MSet', ALG)
def _(c, m, st):
    al, n = setlist(c, m)
    c.req('set', st > 0)
    c.req('room', z3.Implies(al != 0, z3.And(n < MAXL, c.pre.NTOT(al) < MAXL)))
    listmods(c, m, al)
    yield
    listed(c, m, al, n, st)

@reg('MESH_Rem_MSet', ALG)
def _(c, m, st):
    al, n = setlist(c, m)
    c.req('set', st > 0)
    mods(c, al)
    yield
    s, t = c.pre, c.post
    c.ens('wf', z3.Implies(al != 0, WF(c, t, al)))
    absent = elts(c, s, al, lambda i, v: v != st)
    c.ens('removed', z3.Implies(al != 0, z3.Or(z3.And(absent, t.LEN(al) == s.LEN(al), elts(c, t, al, lambda k, v: v == s.ELT(al, k))), ex1(c, s, al, lambda w: z3.And(s.ELT(al, w) == st, gone(c, al, w))))))

@reg('MSet_New', ALG)
def _(c, m, name, dim):
    al, n = setlist(c, m)
    c.req('room', z3.Implies(al != 0, z3.And(n < MAXL, c.pre.NTOT(al) < MAXL)))
    c.new()
    freshset(c)
    listmods(c, m, al)
    yield
    s, t = c.pre, c.post
    r = c.res
    newset(c, m, r, dim)
    c.ens('empty', z3.And(t.LEN(EL(t, r)) == 0, t.NTOT(EL(t, r)) == 0))
    listed(c, m, al, n, r)

def freshset(c):
    for f in ((NM, 'ptr'), (ME_, 'ptr'), (DIM, 'i32'), (LST, 'ptr')):
        c.mod(('F',) + f, FRESH)

def newset(c, m, r, dim, cond=True):
    t = c.post
    s = c.pre
    c.ens('new', z3.Implies(cond, z3.And(r >= s.next, MSH(t, r) == m, ED(t, r) == dim, EL(t, r) >= s.next, EL(t, r) != r, EL(t, r) != t.fld(m, SL, 'ptr'), EL(t, r) < t.next, WF(c, t, EL(t, r)))))

def setmesh(c, st, m):
    """the set belongs to this mesh"""
    s = c.pre
    c.req('mesh', MSH(s, st) == m)

def croom(c, al, n):
    c.req('room', z3.Implies(al != 0, z3.And(n < MAXL, c.pre.NTOT(al) < MAXL)))

@reg('MSet_Copy', ALG)
def _(c, st):
    l = theset(c, st)
    s = c.pre
    m = MSH(s, st)
    al, n = setlist(c, m)
    croom(c, al, n)
    c.new()
    freshset(c)
    listmods(c, m, al)
    yield
    t = c.post
    r = c.res
    newset(c, m, r, ED(s, st))
    listed(c, m, al, n, r)
    lr = EL(t, r)
    c.ens('copied', z3.And(lr != l, t.LEN(lr) == s.LEN(l), elts(c, t, lr, lambda k, v: v == s.ELT(l, k))))

@reg('MSets_Cat', ALG)
def _(c, d, st):
    l = theset(c, d)
    l2 = theset(c, st)
    s = c.pre
    c.req('different', d != st)
    c.req('mesh', z3.And(MSH(s, d) == MSH(s, st), ED(s, d) == ED(s, st)))
    c.req('room', s.NTOT(l) + s.NTOT(l2) < MAXL)
    c.mod(('F', LST, 'ptr'), d)
    mods(c, l)
    yield
    n = s.LEN(l)
    result(c, d)
    seq(c, l, n + s.LEN(l2), lambda k: z3.If(k < n, s.ELT(l, k), s.ELT(l2, k - n)), 'joined')

@reg('MSet_Delete', ALG)
def _(c, st):
    l = theset(c, st)
    s = c.pre
    al, n = setlist(c, MSH(s, st))
    mods(c, al)
    mods(c, l)
    yield
    t = c.post
    c.ens('wf', z3.Implies(al != 0, WF(c, t, al)))
    absent = elts(c, s, al, lambda i, v: v != st)
    c.ens('removed', z3.Implies(al != 0, z3.Or(z3.And(absent, t.LEN(al) == s.LEN(al), elts(c, t, al, lambda k, v: v == s.ELT(al, k))), ex1(c, s, al, lambda w: z3.And(s.ELT(al, w) == st, gone(c, al, w))))))

INF = z3.Function('INF', z3.IntSort(), z3.IntSort(), z3.BoolSort())
def IN(s, l, x):
    return INF(l, x)

def membership(c, ls):
    """INF(l,x): x stands in l (ghost); PO(l,x): where"""
    s = c.pre
    i = z3.Int('i')
    for l in ls:
        e = s.ELT(l, i)
        c.ghost(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.LEN(l)), INF(l, e)), patterns=[e]))
        at = lambda x: z3.Implies(INF(l, x), z3.And(0 <= PO(l, x), PO(l, x) < s.LEN(l), s.ELT(l, PO(l, x)) == x))
        for k in ls:
            c.ghost(at(s.ELT(k, K0)))
            x = s.ELT(k, s.POS(k, i))
            c.ghost(z3.ForAll([i], at(x), patterns=[x]))

def algebra(c, s1, s2):
    s = c.pre
    l1 = theset(c, s1, True)
    l2 = theset(c, s2, True)
    m = MSH(s, s1)
    membership(c, (l1, l2))
    al, n = setlist(c, m)
    croom(c, al, n)
    c.req('room', z3.And(s.NTOT(l1) + s.NTOT(l2) < MAXL))
    c.maybe_new()
    freshset(c)
    listmods(c, m, al)
    return l1, l2, m, al, n

def kept(c, k, sa, keep):
    """KC(q): how many of the first q entries of sa are to be kept (ghost, defined by recursion)"""
    s = c.pre
    KC = z3.Function('KC%d' % k, z3.IntSort(), z3.IntSort())
    q = z3.Int('q')
    c.ghost(z3.And(KC(0) == 0, KC(s.LEN(sa)) >= 0))
    x = s.ELT(sa, s.POS(sa, q))
    p = s.POS(sa, q)
    c.ghost(z3.ForAll([q], z3.Implies(z3.And(0 <= p, p < s.LEN(sa)), z3.And(KC(p) >= 0, KC(p + 1) == KC(p) + z3.If(keep(x), 1, 0))), patterns=[x]))
    return KC

def cover(t, s, lr, sa, KC, pos, base, keep, K0=K0):
    return z3.And(t.LEN(lr) == base + KC(pos), z3.Implies(z3.And(0 <= K0, K0 < pos, keep(s.ELT(sa, K0))),
        z3.And(KC(K0) >= 0, base + KC(K0) < t.LEN(lr), t.ELT(lr, base + KC(K0)) == s.ELT(sa, K0))))

def building(c, body):
    """candidates over the list of the set under construction: body(LV, lr, idx)"""
    def h(LV):
        out = {}
        for n, o in enumerate(LV.fresh):
            o = iv(o)
            lr = EL(LV.s, o)
            for q, i in LV.ints.items():
                for k, f in body(LV, lr, iv(i)).items():
                    out[k, n, q] = f
            al = LV.s0.fld(MSH(c.pre, c.args[0]), SL, 'ptr')
            q = z3.Int('q')
            tt, t0 = LV.s, LV.s0
            for v in ('LEN', 'NTOT'):
                out['sets', v] = getattr(tt, v)(al) == getattr(t0, v)(al)
            for v in ('ELT', 'POS'):
                out['sets', v] = z3.ForAll([q], getattr(tt, v)(al, q) == getattr(t0, v)(al, q), patterns=[getattr(tt, v)(al, q)])
            out['own', n] = z3.And(lr == EL(LV.s0, o), lr >= c.pre.next)
        return out
    c.inv(h)

def frame(c, LV, ls):
    s, t = c.pre, LV.s
    q = z3.Int('q')
    return z3.And([z3.And([z3.ForAll([q], getattr(t, v)(l, q) == getattr(s, v)(l, q), patterns=[getattr(t, v)(l, q)]) for v in ('ELT', 'POS')] + [t.LEN(l) == s.LEN(l), t.NTOT(l) == s.NTOT(l)]) for l in ls])

@reg('MSets_Union', ALG, generic=False, retry=True)
def _(c, s1, s2):
    s = c.pre
    l1, l2, m, al, n = algebra(c, s1, s2)
    n1 = s.LEN(l1)
    q = z3.Int('q')
    KC = kept(c, 0, l2, lambda v: z3.Not(IN(s, l1, v)))
    def body(LV, lr, i):
        t = LV.s
        pos = s.POS(l2, i)
        e = t.ELT(lr, q)
        return {'rng': z3.And(i >= 0, i <= s.NTOT(l2), pos >= 0),
                'wf': z3.And(WF(c, t, lr), t.LEN(lr) >= n1, t.LEN(lr) <= n1 + pos, t.NTOT(lr) <= s.NTOT(l1) + pos),
                'first': z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n1), e == s.ELT(l1, q)), patterns=[e]),
                'first2': z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n1), e == s.ELT(l1, q)), patterns=[s.ELT(l1, q)]),
                'rest': z3.ForAll([q], z3.Implies(z3.And(n1 <= q, q < t.LEN(lr)), z3.And(PO(l2, e) >= 0, PO(l2, e) < pos, IN(s, l2, e), z3.Not(IN(s, l1, e)))), patterns=[e]),
                'order': z3.Implies(z3.And(n1 <= I0, I0 < J0, J0 < t.LEN(lr)), PO(l2, t.ELT(lr, I0)) < PO(l2, t.ELT(lr, J0))),
                'cover': cover(t, s, lr, l2, KC, pos, n1, lambda v: z3.Not(IN(s, l1, v)))}
    building(c, body)
    c.inv(lambda LV: {'in': frame(c, LV, (l1, l2))})
    yield
    t = c.post
    r = c.res
    ok = m == MSH(s, s2)
    c.ens('mesh', z3.If(ok, r != 0, r == 0))
    newset(c, m, r, z3.If(ED(s, s1) == ED(s, s2), ED(s, s1), 5), ok)
    lr = EL(t, r)
    listed(c, m, al, n, r, ok)
    e = t.ELT(lr, q)
    c.ens('size', z3.Implies(ok, z3.And(t.LEN(lr) >= n1, t.LEN(lr) <= n1 + s.LEN(l2))))
    c.ens('first', z3.Implies(ok, c.forall(1, lambda k: z3.Implies(z3.And(0 <= k, k < n1), t.ELT(lr, k) == s.ELT(l1, k)), lambda k: t.ELT(lr, k))))
    c.ens('only', z3.Implies(ok, elts(c, t, lr, lambda k, v: z3.Or(IN(s, l1, v), IN(s, l2, v)))))
    c.ens('all2', z3.Implies(z3.And(ok, 0 <= K0, K0 < s.LEN(l2), z3.Not(IN(s, l1, s.ELT(l2, K0)))), ex1(c, t, lr, lambda w: t.ELT(lr, w) == s.ELT(l2, K0))))
    c.ens('once', z3.Implies(z3.And(ok, 0 <= I0, I0 < J0, J0 < t.LEN(lr)), t.ELT(lr, I0) != t.ELT(lr, J0)))
    c.ens('operands', z3.And([z3.And(EL(t, x) == EL(s, x), t.LEN(l) == s.LEN(l)) for x, l in ((s1, l1), (s2, l2))]))

def filtered(c, s1, s2, src, keep, dim):
    """a new set holds, in order and once each, those entries of the source list that satisfy keep; NULL if there is none"""
    s = c.pre
    l1, l2, m, al, n = algebra(c, s1, s2)
    q = z3.Int('q')
    srcs = [src(c, l1, l2)]
    KCs = [kept(c, k, sa, lambda v: keep(l1, l2, v)) for k, sa in enumerate(srcs)]
    def body(LV, lr, i):
        t = LV.s
        e = t.ELT(lr, q)
        out = {}
        for k, sa in enumerate(srcs):
            pos = s.POS(sa, i)
            out.update({('rng', k): z3.And(i >= 0, i <= s.NTOT(sa), pos >= 0),
                ('wf', k): z3.And(WF(c, t, lr), t.LEN(lr) <= pos, t.NTOT(lr) <= pos),
                ('from', k): z3.And([z3.Implies(z3.And(0 <= q, q < t.LEN(lr)), z3.And(PO(sa, e) >= 0, PO(sa, e) < pos, IN(s, sa, e), keep(l1, l2, e))) for q in (I0, J0) for e in (t.ELT(lr, q),)]),
                ('order', k): z3.Implies(z3.And(0 <= I0, I0 < J0, J0 < t.LEN(lr)), PO(sa, t.ELT(lr, I0)) < PO(sa, t.ELT(lr, J0))),
                ('cover', k): cover(t, s, lr, sa, KCs[k], pos, 0, lambda v: keep(l1, l2, v), PO(sa, s.ELT(l1, K0)))})
        return out
    building(c, body)
    c.inv(lambda LV: {'in': frame(c, LV, (l1, l2))})
    yield
    t = c.post
    r = c.res
    same = m == MSH(s, s2)
    c.ens('mesh', z3.Implies(z3.Not(same), r == 0))
    ok = z3.And(same, r != 0)
    newset(c, m, r, dim(ED(s, s1), ED(s, s2)), ok)
    listed(c, m, al, n, r, ok)
    lr = EL(t, r)
    c.ens('some', z3.Implies(ok, t.LEN(lr) > 0))
    c.ens('only', z3.Implies(z3.And(ok, 0 <= J0, J0 < t.LEN(lr)), keep(l1, l2, t.ELT(lr, J0))) if c.verifying else z3.Implies(ok, elts(c, t, lr, lambda k, v: keep(l1, l2, v))))
    c.ens('once', z3.Implies(z3.And(ok, 0 <= I0, I0 < J0, J0 < t.LEN(lr)), t.ELT(lr, I0) != t.ELT(lr, J0)))
    c.ens('all', z3.Implies(z3.And(ok, 0 <= K0, K0 < s.LEN(l1), keep(l1, l2, s.ELT(l1, K0))), ex1(c, t, lr, lambda w: t.ELT(lr, w) == s.ELT(l1, K0))))
    c.ens('empty', z3.Implies(z3.And(same, r == 0, 0 <= K0, K0 < s.LEN(l1)), z3.Not(keep(l1, l2, s.ELT(l1, K0)))))
    c.ens('operands', z3.And([z3.And(EL(t, x) == EL(s, x), t.LEN(l) == s.LEN(l)) for x, l in ((s1, l1), (s2, l2))]))

@reg('MSets_Subtract', ALG, generic=False, retry=True)
def _(c, s1, s2):
    s = c.pre
    yield from filtered(c, s1, s2, lambda c, l1, l2: l1, lambda l1, l2, e: z3.And(IN(s, l1, e), z3.Not(IN(s, l2, e))), lambda d1, d2: d1)

def shorter(c, l1, l2):
    sa = z3.Int('SHORT')
    c.ghost(sa == z3.If(c.pre.LEN(l1) < c.pre.LEN(l2), l1, l2))
    return sa

@reg('MSets_Intersect', ALG, generic=False, forksel=True, retry=True)
def _(c, s1, s2):
    s = c.pre
    yield from filtered(c, s1, s2, shorter, lambda l1, l2, e: z3.And(IN(s, l1, e), IN(s, l2, e)), lambda d1, d2: z3.If(d1 == d2, d1, 5))
