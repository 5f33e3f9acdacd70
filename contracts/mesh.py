"""Contracts for the mesh record and its entity lists (src/base/Mesh.c).

The mesh record is concrete; entities and lists are abstract.  Rigid I0, J0, K0 stand for arbitrary positions."""
from verify import *
import lists
import ents
from lists import WF, MAXL, elts, modlist
from topo import KIND, OWN, I0, J0, K0, X0

def LIDF(s, m): return s.fld(m, 96, 'i32')
LIDF.fam = ('F', 96, 'i32')
CONCRETE = {'LIDSORT': LIDF}

FUNCS, REGI, LOOK, GH = [], [], [], []

class K:
    def __init__(self, i, T, N, NP, dflt):
        self.i, self.T, self.N, self.NP = i, T, N, NP
        self.cnt, self.lst, self.mx = 4 + 4 * i, 24 + 8 * i, 80 + 4 * i
        self.gh, self.ghmx, self.ov, self.gid = 152 + 8 * i, 184 + 4 * i, 200 + 8 * i, 232 + 8 * i
KS = [K(0, 'MV', 'Vertex', 'Vertices', 0), K(1, 'ME', 'Edge', 'Edges', 1), K(2, 'MF', 'Face', 'Faces', 2), K(3, 'MR', 'Region', 'Regions', 3)]

def L(s, m, k): return s.fld(m, k.lst, 'ptr')
def N(s, m, k): return s.fld(m, k.cnt, 'i32')
def MX(s, m, k): return s.fld(m, k.mx, 'i32')
def GL(s, m, k): return s.fld(m, k.gh, 'ptr')
def OL(s, m, k): return s.fld(m, k.ov, 'ptr')
def REP(s, m): return s.fld(m, 0, 'i32')
WHY = 'the entity lists of a mesh are different lists'

def MI(c, s, m, k):
    """count and list agree"""
    l = L(s, m, k)
    return z3.If(l == 0, N(s, m, k) == 0, z3.And(WF(c, s, l), N(s, m, k) == s.LEN(l)))

def ALLK(c, m, *ks, g=None, none=False):
    s = c.pre
    im = (lambda x: x) if g is None else (lambda x: z3.Implies(g, x))
    c.req('mesh', m > 0 if g is None else m >= 0)
    c.assume(im(KIND(iv(m)) == 50), WHY)
    for k in () if none else ks or KS:
        c.req('list', im(MI(c, s, m, k)))
        c.ghost(s.POS(L(s, m, k), 0) == 0)      # by definition: no entry stands before position 0
    for k in KS:
        for off, n in ((k.lst, 0), (k.gh, 10), (k.ov, 20)):
            l = s.fld(m, off, 'ptr')
            c.assume(im(z3.Implies(l != 0, z3.And(KIND(l) == 51 + n + k.i, OWN(l) == iv(m)))), WHY)

def f1(c, m):
    c.req('representation', REP(c.pre, m) == 0)

def ids(c, s, m, k):
    """IDs are in 1..max and pairwise different"""
    l = L(s, m, k)
    rng = c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < s.LEN(l)), z3.And(s.IDV(s.ELT(l, i)) >= 1, s.IDV(s.ELT(l, i)) <= MX(s, m, k))), lambda i: s.ELT(l, i))
    dis = c.forall(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < s.LEN(l)), s.IDV(s.ELT(l, i)) != s.IDV(s.ELT(l, j))), lambda i, j: z3.MultiPattern(s.ELT(l, i), s.ELT(l, j)))
    return z3.Implies(l != 0, z3.And(rng, dis))

def sortedids(c, s, m, k):
    l = L(s, m, k)
    inc = c.forall(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < s.LEN(l)), s.IDV(s.ELT(l, i)) < s.IDV(s.ELT(l, j))), lambda i, j: z3.MultiPattern(s.ELT(l, i), s.ELT(l, j)))
    return z3.Implies(z3.And(c.st_lid(s, m) != 0, l != 0), z3.And(s.NTOT(l) == s.LEN(l), inc))

Ctx.st_lid = lambda self, s, m: s.LIDSORT(m)

def inl(c, s, l, x, w='G_where'):
    if c.verifying:
        w = z3.Int(w)
        return z3.And(0 <= w, w < s.LEN(l), s.ELT(l, w) == x)
    j = z3.Int('jx')
    return z3.Exists([j], z3.And(0 <= j, j < s.LEN(l), s.ELT(l, j) == x), patterns=[s.ELT(l, j)])

def inlres(c, s, l, x):
    if c.verifying:
        j = z3.Int('jx')
        return z3.Exists([j], z3.And(0 <= j, j < s.LEN(l), s.ELT(l, j) == x), patterns=[s.ELT(l, j)])
    w = c.ex.fresh('w')
    return z3.And(0 <= w, w < s.LEN(l), s.ELT(l, w) == x)

def reg(n, lst, **kw):
    def d(g):
        lst.append(n)
        return contract(n, **kw)(g)
    return d

@reg('MESH_RepType', REGI)
def _(c, m):
    c.req('mesh', m > 0)
    yield
    c.ens('value', c.res == REP(c.pre, m))

def addreq(c, m, k, g=None):
    s = c.pre
    l = L(s, m, k)
    im = (lambda x: x) if g is None else (lambda x: z3.Implies(g, x))
    c.req('ids', im(ids(c, s, m, k)))
    c.req('sorted', im(sortedids(c, s, m, k)))
    c.req('room', im(z3.And(MX(s, m, k) >= 0, MX(s, m, k) < MAXL, z3.Implies(l != 0, s.NTOT(l) < MAXL))))

def addmods(c, m, k, g=None):
    l = L(c.pre, m, k)
    if g is not None:
        l = z3.If(g, l, 0)
    for fam in (('F', k.lst, 'ptr'), ('F', k.cnt, 'i32'), ('F', k.mx, 'i32')):
        c.mod(fam, m)
    c.mod('LIDSORT', m)
    for v in ('LEN', 'NTOT', 'ELT', 'POS'):
        c.mod(v, l)
        c.mod(v, FRESH)
    c.allocates()

def added(c, m, e, k, oldid, g=None):
    im = (lambda x: x) if g is None else (lambda x: z3.Implies(g, x))
    s, t = c.pre, c.post
    l = L(s, m, k)
    l2 = L(t, m, k)
    n = z3.If(l == 0, 0, s.LEN(l))
    c.ens('list', im(z3.And(l2 != 0, WF(c, t, l2), z3.If(l != 0, l2 == l, l2 >= s.next))))
    c.ens('count', im(z3.And(N(t, m, k) == n + 1, t.LEN(l2) == n + 1)))
    c.ens('appended', im(t.ELT(l2, n) == e))
    c.ens('kept', im(z3.Implies(l != 0, elts(c, s, l, lambda i, v: t.ELT(l2, i) == v))))
    c.ens('new-id', im(z3.Implies(oldid == 0, z3.And(t.IDV(e) == MX(s, m, k) + 1, MX(t, m, k) == MX(s, m, k) + 1))))
    c.ens('old-id', im(z3.Implies(oldid != 0, z3.And(t.IDV(e) == oldid, MX(t, m, k) == MX(s, m, k)))))
    c.ens('ids', im(ids(c, t, m, k)))
    c.ens('restored', im(z3.Implies(oldid != 0, t.LIDSORT(m) == 0)))
    c.ens('sorted', im(sortedids(c, t, m, k)))
    for q in KS:
        if q is not k:
            lq = L(t, m, q)
            c.ens('others', im(z3.And(lq == L(s, m, q), N(t, m, q) == N(s, m, q), MX(t, m, q) == MX(s, m, q))))

for k in KS:
    @reg('MESH_Num_' + k.NP, REGI)
    def _(c, m, k=k):
        ALLK(c, m, k)
        f1(c, m)
        yield
        s = c.pre
        c.ens('count', c.res == z3.If(L(s, m, k) == 0, 0, s.LEN(L(s, m, k))))

    @reg('MESH_' + k.N, REGI)
    def _(c, m, i, k=k):
        ALLK(c, m, k)
        f1(c, m)
        c.req('index', i >= 0)
        yield
        s = c.pre
        l = L(s, m, k)
        c.ens('entry', c.res == z3.If(z3.And(l != 0, i < s.LEN(l)), s.ELT(l, i), 0))

    @reg('MESH_Next_' + k.N, REGI)
    def _(c, m, ip, k=k):
        ALLK(c, m, k)
        f1(c, m)
        s = c.pre
        l = L(s, m, k)
        x = s.at(ip, 0, 'i32')
        if c.verifying:
            c.req('out', iv(ip if not isinstance(ip, P) else ip.obj) > 0)
        c.req('idx', z3.Implies(l != 0, z3.And(x >= 0, x <= s.NTOT(l))))
        c.mod(('E', 'i32'), ip.obj if isinstance(ip, P) else ip)
        c.cell(ip if not isinstance(ip, P) else ip.obj)
        yield
        t = c.post
        y = t.at(ip, 0, 'i32')
        n = s.POS(l, x)
        more = z3.And(l != 0, n < s.LEN(l))
        c.ens('pos', z3.Implies(l != 0, z3.And(n >= 0, n <= s.LEN(l))))
        c.ens('end', z3.Implies(z3.Not(more), c.res == 0))
        c.ens('next', z3.Implies(more, z3.And(c.res != 0, c.res == s.ELT(l, n))))
        c.ens('advance', z3.Implies(more, z3.And(y > x, y <= s.NTOT(l), s.POS(l, y) == n + 1)))

    @reg('MESH_%s_List' % k.N, REGI)
    def _(c, m, k=k):
        c.req('mesh', m > 0)
        yield
        c.ens('list', c.res == L(c.pre, m, k))

    @reg('MESH_Add_' + k.N, REGI)
    def _(c, m, e, k=k):
        ALLK(c, m, k)
        f1(c, m)
        s = c.pre
        l = L(s, m, k)
        c.req('entity', e > 0)
        c.req('not-listed', z3.Implies(l != 0, elts(c, s, l, lambda i, v: v != e)))
        c.req('mesh-of', s.MESHV(e) == m)
        addreq(c, m, k)
        c.req('room', s.IDV(e) >= 0)
        # a restored entity brings its old ID back: it is not in use
        c.req('id-free', z3.Implies(z3.And(l != 0, s.IDV(e) != 0), elts(c, s, l, lambda i, v: s.IDV(v) != s.IDV(e))))
        c.req('id-known', s.IDV(e) <= MX(s, m, k))
        addmods(c, m, k)
        c.mod('IDV', e)
        yield
        added(c, m, e, k, s.IDV(e))

@reg('MESH_Flag_EntLists_As_Unsorted', REGI)
def _(c, m):
    c.req('mesh', m > 0)
    c.mod('LIDSORT', m)
    yield
    c.ens('flag', c.post.LIDSORT(m) == 0)

def listmods(c, l):
    for v in ('LEN', 'NTOT', 'ELT', 'POS'):
        c.mod(v, l)

@reg('MESH_Enable_LocalIDSearch', LOOK)
def _(c, m):
    ALLK(c, m)
    f1(c, m)
    s = c.pre
    c.mod('LIDSORT', m)
    for k in KS:
        c.req('ids', ids(c, s, m, k))
        c.req('sorted', sortedids(c, s, m, k))
        listmods(c, L(s, m, k))
        c.mod('SRTP', L(s, m, k))
        c.mod('SRTQ', L(s, m, k))
    yield
    t = c.post
    c.ens('flag', t.LIDSORT(m) != 0)
    for k in KS:
        l = L(s, m, k)
        c.ens('same-count', z3.Implies(l != 0, z3.And(WF(c, t, l), t.LEN(l) == s.LEN(l))))
        c.ens('ids', ids(c, t, m, k))
        c.ens('sorted', sortedids(c, t, m, k))
        # the same entities: nothing lost, nothing new
        p, q = t.SRTP(l, I0), t.SRTQ(l, I0)
        n = s.LEN(l)
        if c.verifying:
            c.term(s.ELT(l, I0), t.ELT(l, I0))
        same = z3.And(t.ELT(l, I0) == s.ELT(l, I0), s.LIDSORT(m) != 0)
        c.ens('nothing-lost', z3.Implies(z3.And(l != 0, 0 <= I0, I0 < n), z3.Or(same, z3.And(0 <= q, q < n, t.ELT(l, q) == s.ELT(l, I0)))))
        c.ens('nothing-new', z3.Implies(z3.And(l != 0, 0 <= I0, I0 < n), z3.Or(same, z3.And(0 <= p, p < n, s.ELT(l, p) == t.ELT(l, I0)))))

for k in KS:
    @reg('MESH_%sFromID' % k.N, LOOK, initto=1)
    def _(c, m, id, k=k):
        ALLK(c, m, k)
        f1(c, m)
        s = c.pre
        l = L(s, m, k)
        c.req('ids', ids(c, s, m, k))
        c.req('sorted', sortedids(c, s, m, k))
        c.req('id', id < ents.RANGE['IDV'])
        c.allocates()
        def h(LV):
            out = {}
            q = z3.Int('q')
            for n, i in LV.ints.items():
                pos = LV.s.POS(l, iv(i))
                out[('r', n)] = z3.And(iv(i) >= 0, iv(i) <= s.NTOT(l))
                out[('seen', n)] = z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < pos, q < s.LEN(l)), s.IDV(s.ELT(l, q)) != id), patterns=[s.ELT(l, q)])
            return out
        c.inv(h)
        yield
        c.ens('none', z3.Implies(z3.And(c.res == 0, l != 0), elts(c, s, l, lambda i, v: s.IDV(v) != id)))
        if c.verifying:
            j = z3.Int('j')
            c.ens('found', z3.Implies(c.res != 0, z3.And(l != 0, s.IDV(c.res) == id, z3.Exists([j], z3.And(0 <= j, j < s.LEN(l), s.ELT(l, j) == c.res), patterns=[s.ELT(l, j)]))))
        else:
            w = c.ex.fresh('w')
            c.ens('found', z3.Implies(c.res != 0, z3.And(l != 0, s.IDV(c.res) == id, 0 <= w, w < s.LEN(l), s.ELT(l, w) == c.res)))

@reg('MESH_EntityFromID', LOOK)
def _(c, m, t, id):
    ALLK(c, m)
    f1(c, m)
    s = c.pre
    c.req('kind', z3.And(t >= 0, t <= 3))
    c.req('id', id < ents.RANGE['IDV'])
    for k in KS:
        c.req('ids', z3.Implies(t == k.i, ids(c, s, m, k)))
        c.req('sorted', z3.Implies(t == k.i, sortedids(c, s, m, k)))
    c.allocates()
    yield
    for k in KS:
        l = L(s, m, k)
        c.ens('none', z3.Implies(z3.And(t == k.i, c.res == 0, l != 0), elts(c, s, l, lambda i, v: s.IDV(v) != id)))
        c.ens('found', z3.Implies(z3.And(t == k.i, c.res != 0), z3.And(l != 0, s.IDV(c.res) == id, inlres(c, s, l, c.res))))

@reg('MESH_Reset_Cached_MaxIDs', LOOK)
def _(c, m):
    ALLK(c, m)
    f1(c, m)
    s = c.pre
    for k in KS:
        c.mod(('F', k.mx, 'i32'), m)
        l = L(s, m, k)
        c.req('ids', z3.Implies(l != 0, elts(c, s, l, lambda i, v: s.IDV(v) >= 1)))
    def h(LV):
        out = {}
        q = z3.Int('q')
        for k in KS:
            l = L(s, m, k)
            for n, i in LV.ints.items():
                pos = LV.s.POS(l, iv(i))
                out[('rng', k.i, n)] = z3.And(iv(i) >= 0, z3.Implies(l != 0, iv(i) <= s.NTOT(l)))
                for n2, x in LV.ints.items():
                    if n2 != n:
                        out[('up', k.i, n, n2)] = z3.Implies(l != 0, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < pos, q < s.LEN(l)), s.IDV(s.ELT(l, q)) <= iv(x)), patterns=[s.ELT(l, q)]))
        return out
    c.inv(h)
    yield
    t = c.post
    for k in KS:
        l = L(s, m, k)
        c.ens('upper', z3.Implies(l != 0, elts(c, s, l, lambda i, v: s.IDV(v) <= MX(t, m, k))))

# ---- ghost and overlap lists
PG, PO_ = 3, 1
LISTS2 = (('Ghost', GL, PG), ('Overlap', OL, PO_))
def PACUR(s, m): return s.fld(m, 132, 'i32')

def only(c, m):
    c.req('mesh', m > 0)
    c.assume(KIND(iv(m)) == 50, WHY)

def wfnull(c, s, l):
    return z3.Implies(l != 0, WF(c, s, l))

def gidd(c, s, l):
    return c.forall(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < s.LEN(l)), s.GID(s.ELT(l, i)) != s.GID(s.ELT(l, j))), lambda i, j: z3.MultiPattern(s.ELT(l, i), s.ELT(l, j)))

def gaddmods(c, m, k, LL, g=None):
    s = c.pre
    l = LL(s, m, k)
    if g is not None:
        l = z3.If(g, l, 0)
    c.mod(('F', k.gh if LL is GL else k.ov, 'ptr'), m)
    c.mod(('F', 132, 'i32'), m)
    listmods(c, l)
    for v in ('LEN', 'NTOT', 'ELT', 'POS'):
        c.mod(v, FRESH)
    c.allocates()

def gadded(c, m, e, k, LL, g=None):
    im = (lambda x: x) if g is None else (lambda x: z3.Implies(g, x))
    s, t = c.pre, c.post
    l, l2 = LL(s, m, k), LL(t, m, k)
    n = z3.If(l == 0, 0, s.LEN(l))
    c.ens('list', im(z3.And(l2 != 0, WF(c, t, l2), z3.If(l != 0, l2 == l, l2 >= s.next))))
    c.ens('marked-count', im(t.LEN(l2) == n + 1))
    c.ens('marked-slots', im(t.NTOT(l2) == z3.If(l == 0, 0, s.NTOT(l)) + 1))
    c.ens('marked-appended', im(t.ELT(l2, n) == e))
    c.ens('marked-kept', im(z3.Implies(l != 0, elts(c, s, l, lambda i, v: t.ELT(l2, i) == v))))
    if not c.verifying:
        c.ens('marked-kept', im(z3.Implies(l != 0, c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < s.LEN(l)), t.ELT(l2, i) == s.ELT(l, i)), lambda i: t.ELT(l2, i)))))
    c.ens('stale', im(PACUR(t, m) == 0))
    if g is not None:
        c.ens('marked-same', z3.Implies(z3.Not(g), l2 == l))

# ---- removal
def rmmods(c, m, k, g=None):
    s = c.pre
    l = L(s, m, k) if g is None else z3.If(g, L(s, m, k), 0)
    listmods(c, l)
    c.mod(('F', k.cnt, 'i32'), m)
    c.mod('LIDSORT', m)

def removedfrom(c, m, e, k, cond=True):
    """e is gone from the list of its kind; the others keep their order"""
    s, t = c.pre, c.post
    l = L(s, m, k)
    n = s.LEN(l)
    c.ens('count', z3.Implies(cond, z3.And(WF(c, t, l), t.LEN(l) == n - 1, N(t, m, k) == n - 1)))
    c.ens('gone', z3.Implies(cond, elts(c, t, l, lambda i, v: v != e)))
    if c.verifying:
        w = z3.Int('w')
        c.ens('others', z3.Implies(cond, z3.Exists([w], z3.And(0 <= w, w < n, s.ELT(l, w) == e,
              c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < n - 1), t.ELT(l, i) == s.ELT(l, z3.If(i < w, i, i + 1))), lambda i: t.ELT(l, i))), patterns=[s.ELT(l, w)])))
    else:
        w = c.ex.fresh('w')
        c.ens('others', z3.Implies(cond, z3.And(0 <= w, w < n, s.ELT(l, w) == e,
              c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < n - 1), t.ELT(l, i) == s.ELT(l, z3.If(i < w, i, i + 1))), lambda i: t.ELT(l, i)))))
    c.ens('unsorted', z3.Implies(cond, t.LIDSORT(m) == 0))

def gone(c, e, l, g, tag):
    """e is gone from l, the others keep their order"""
    s, t = c.pre, c.post
    n = s.LEN(l)
    c.ens(tag + '-count', z3.Implies(g, z3.And(WF(c, t, l), t.LEN(l) == n - 1)))
    c.ens(tag + '-gone', z3.Implies(g, elts(c, t, l, lambda i, v: v != e)))
    body = lambda w: z3.And(0 <= w, w < n, s.ELT(l, w) == e, c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < n - 1), t.ELT(l, i) == s.ELT(l, z3.If(i < w, i, i + 1))), lambda i: t.ELT(l, i)))
    if c.verifying:
        w = z3.Int('w')
        c.ens(tag + '-others', z3.Implies(g, z3.Exists([w], body(w), patterns=[s.ELT(l, w)])))
    else:
        c.ens(tag + '-others', z3.Implies(g, body(c.ex.fresh('w'))))
    c.ens(tag + '-stale', z3.Implies(g, PACUR(t, c.mshv) == 0))

def markreq(c, m, e, k, LL, g):
    """the list the entity is marked in is well formed and holds it; global IDs tell its entries apart"""
    s = c.pre
    l = LL(s, m, k)
    c.req('marked', z3.Implies(g, z3.And(l != 0, wfnull(c, s, l), inl(c, s, l, e, 'G_where2'))))
    c.req('global-ids', z3.Implies(g, gidd(c, s, l)))
    listmods(c, z3.If(g, l, 0))
    c.mod(('F', 132, 'i32'), m)
    c.mshv = m

REM = []
for k in KS:
    @reg('MESH_Rem_' + k.N, REM)
    def _(c, m, e, k=k):
        ALLK(c, m, k)
        s = c.pre
        l = L(s, m, k)
        f1(c, m)
        c.req('ids', ids(c, s, m, k))
        c.req('entity', e > 0)
        c.req('listed', z3.And(l != 0, inl(c, s, l, e)))
        g = s.PT(e) == PO_
        markreq(c, m, e, k, OL, g)
        rmmods(c, m, k)
        yield
        removedfrom(c, m, e, k)
        gone(c, e, OL(s, m, k), g, 'overlap')

    @reg('MESH_Rem_Ghost' + k.N, GH)
    def _(c, m, e, k=k):
        ALLK(c, m, k)
        s = c.pre
        l = L(s, m, k)
        f1(c, m)
        c.req('ids', ids(c, s, m, k))
        c.req('entity', e > 0)
        c.req('listed', z3.And(l != 0, inl(c, s, l, e)))
        g = z3.BoolVal(True)
        markreq(c, m, e, k, GL, g)
        rmmods(c, m, k)
        yield
        removedfrom(c, m, e, k)
        gone(c, e, GL(s, m, k), g, 'ghost')

# ---------------------------------------------------------------- making and deleting entities
import topo
from topo import ADJ, VEL, EV, EFL, FDW, FEL, FR, RDP, RFL, V, E, F, RG
ENT = []

def blank(c, t, x, k):
    """a new entity of that kind has no adjacency yet"""
    a = ADJ(t, x)
    p = c.pre.next
    if k == V:
        return z3.And(a >= p, VEL(t, x) >= p, WF(c, t, VEL(t, x)), t.LEN(VEL(t, x)) == 0, t.NTOT(VEL(t, x)) == 0)
    if k == E:
        return z3.And(a >= p, EFL(t, x) >= p, WF(c, t, EFL(t, x)), t.LEN(EFL(t, x)) == 0, t.NTOT(EFL(t, x)) == 0)
    if k == F:
        return z3.And(a >= p, FEL(t, x) == 0, FR(t, x, 0) == 0, FR(t, x, 1) == 0, FDW(t, x) == 0)
    return z3.And(a >= p, RFL(t, x) == 0, RDP(t, x) == 0)

for k in KS:
    for n in ['%s_Set_RepType_F1' % k.T] + ([k.T + '_Set_RepType_FNR3R4'] if k.i == 3 else []):
        @reg(n, ENT)
        def _(c, x, k=k):
            c.req('entity', x > 0)
            c.mod(('F', 40, 'ptr'), x)
            c.allocates()
            for v in ('LEN', 'NTOT', 'ELT', 'POS'):
                c.mod(v, FRESH)
            yield
            c.ens('blank', blank(c, c.post, x, k.i))

    @reg('%s_Set_RepType' % k.T, ENT)
    def _(c, x, rt, k=k):
        c.req('entity', x > 0)
        c.req('full', rt == 0)
        c.mod(('F', 40, 'ptr'), x)
        c.mod('RT', x)
        c.allocates()
        for v in ('LEN', 'NTOT', 'ELT', 'POS'):
            c.mod(v, FRESH)
        yield
        c.ens('blank', blank(c, c.post, x, k.i))
        c.ens('rep', c.post.RT(x) == 0)

    @reg('%s_New' % k.T, ENT)
    def _(c, m, k=k):
        g = m != 0
        s = c.pre
        ALLK(c, m, k, g=g)
        c.req('representation', z3.Implies(g, REP(s, m) == 0))
        addreq(c, m, k, g)
        addmods(c, m, k, g)
        yield
        t, x = c.post, c.res
        c.ens('fresh', x >= c.pre.next)
        c.ens('blank', blank(c, t, x, k.i))
        c.ens('fields', z3.And(t.RT(x) == 0, t.MESHV(x) == m, t.DELD(x) == 0, t.ODIM(x) == k.i, t.VOLA(x) == 0, t.PT(x) == 0, t.GI(x) == 0, t.GID(x) == 0, t.MARK(x) == 0, t.AIL(x) == 0))
        if k.i == 1:
            c.ens('no-ends', z3.And(EV(t, x, 0) == 0, EV(t, x, 1) == 0))
        if k.i == 3:
            c.ens('type', topo.RTYPE(t, x) == 0)
        c.ens('floating', z3.Implies(z3.Not(g), t.IDV(x) == 0))
        added(c, m, x, k, iv(0), g)

KNOWN_AIL = 'the attribute list of an entity belongs to that entity'
@reg('MEnt_Free_CmnData', [])
def _(c, x):
    s = c.pre
    c.req('entity', x > 0)
    a = s.AIL(x)
    c.mod('AIL', x)
    for v in ('LEN', 'NTOT', 'ELT', 'POS'):
        c.mod(v, a)
    yield
    c.ens('none', c.post.AIL(x) == 0)

DEL = []
for k in KS:
    @reg('%s_Delete' % k.T, DEL)
    def _(c, x, keep, k=k):
        s = c.pre
        m = s.MESHV(x)
        l = L(s, m, k)
        c.sub = True
        c.xout = [lambda y: z3.Or(m == 0, z3.And(y != l, y != GL(s, m, k), y != OL(s, m, k))), lambda y: y != s.AIL(x)]
        sub = REG.contracts['%s_Delete_F1' % k.T].gen(c, x, keep)
        next(sub)
        c.req('rep', s.RT(x) == 0)
        c.req('fields', s.ODIM(x) == k.i)
        g = z3.And(m != 0, s.DELD(x) == 0)
        ALLK(c, m, k, g=m != 0)
        c.req('ids', z3.Implies(g, ids(c, s, m, k)))
        gg, go = z3.And(g, s.PT(x) == PG), z3.And(g, s.PT(x) == PO_)
        markreq(c, m, x, k, GL, gg)
        markreq(c, m, x, k, OL, go)
        c.req('representation', z3.Implies(g, REP(s, m) == 0))
        c.req('listed', z3.Implies(g, z3.And(l != 0, inl(c, s, l, x))))
        c.assume(z3.Implies(s.AIL(x) != 0, z3.And(KIND(s.AIL(x)) == 30, OWN(s.AIL(x)) == iv(x))), KNOWN_AIL)
        rmmods(c, m, k, g)
        c.mod('DELD', x)
        c.mod('AIL', x)
        for v in ('LEN', 'NTOT', 'ELT', 'POS'):
            c.mod(v, s.AIL(x))
        yield
        next(sub, None)
        t = c.post
        c.ens('deleted', t.DELD(x) == 1)
        removedfrom(c, m, x, k, g)
        gone(c, x, GL(s, m, k), gg, 'ghost')
        gone(c, x, OL(s, m, k), go, 'overlap')
        c.ens('twice', z3.Implies(z3.And(m != 0, s.DELD(x) != 0), z3.And(N(t, m, k) == N(s, m, k), t.LIDSORT(m) == s.LIDSORT(m))))
        c.ens('known-max', z3.Implies(m != 0, MX(t, m, k) == MX(s, m, k)))
        if c.verifying:
            pass

    @reg('%s_Restore' % k.T, DEL)
    def _(c, x, k=k):
        s = c.pre
        m = s.MESHV(x)
        l = L(s, m, k)
        c.sub = True
        c.xout = [lambda y: z3.And(y != l, y != GL(s, m, k), y != OL(s, m, k))]
        sub = REG.contracts['%s_Restore_F1' % k.T].gen(c, x)
        next(sub)
        c.req('rep', s.RT(x) == 0)
        ALLK(c, m, k)
        f1(c, m)
        marks = ((GL, s.PT(x) == PG), (OL, s.PT(x) == PO_))
        for LL, g in marks:
            c.req('marks', z3.Implies(g, z3.And(wfnull(c, s, LL(s, m, k)), z3.Implies(LL(s, m, k) != 0, s.NTOT(LL(s, m, k)) < MAXL))))
            gaddmods(c, m, k, LL, g)
        c.req('not-listed', z3.Implies(l != 0, elts(c, s, l, lambda i, v: v != x)))
        addreq(c, m, k)
        c.req('room', s.IDV(x) >= 1)
        c.req('id-free', z3.Implies(l != 0, elts(c, s, l, lambda i, v: s.IDV(v) != s.IDV(x))))
        c.req('id-known', s.IDV(x) <= MX(s, m, k))
        addmods(c, m, k)
        c.mod('IDV', x)
        c.mod('DELD', x)
        c.mod('ODIM', x)
        yield
        next(sub, None)
        added(c, m, x, k, s.IDV(x))
        for LL, g in marks:
            gadded(c, m, x, k, LL, g)
        c.ens('alive', c.post.DELD(x) == 0)

# ---------------------------------------------------------------- ghost, overlap and interior entities
def stepping(c, m, ip, l):
    s = c.pre
    x = s.at(ip, 0, 'i32')
    if c.verifying:
        c.req('out', iv(ip if not isinstance(ip, P) else ip.obj) > 0)
    c.req('idx', z3.Implies(l != 0, z3.And(x >= 0, x <= s.NTOT(l))))
    c.mod(('E', 'i32'), ip.obj if isinstance(ip, P) else ip)
    c.cell(ip if not isinstance(ip, P) else ip.obj)
    return x

for k in KS:
    for nm, LL, pt in LISTS2:
        @reg('MESH_Num_%s%s' % (nm, k.NP), GH)
        def _(c, m, k=k, LL=LL):
            ALLK(c, m, none=True)
            f1(c, m)
            s = c.pre
            c.req('list', wfnull(c, s, LL(s, m, k)))
            yield
            c.ens('count', c.res == z3.If(LL(s, m, k) == 0, 0, s.LEN(LL(s, m, k))))

        @reg('MESH_%s%s' % (nm, k.N), GH)
        def _(c, m, i, k=k, LL=LL):
            ALLK(c, m, none=True)
            f1(c, m)
            s = c.pre
            l = LL(s, m, k)
            c.req('list', z3.And(l != 0, wfnull(c, s, l), i >= 0))
            yield
            c.ens('entry', c.res == z3.If(i < s.LEN(l), s.ELT(l, i), 0))

        @reg('MESH_Next_%s%s' % (nm, k.N), GH)
        def _(c, m, ip, k=k, LL=LL):
            ALLK(c, m, none=True)
            f1(c, m)
            s = c.pre
            l = LL(s, m, k)
            c.req('list', wfnull(c, s, l))
            c.ghost(s.POS(l, 0) == 0)
            x = stepping(c, m, ip, l)
            yield
            t = c.post
            y = t.at(ip, 0, 'i32')
            n = s.POS(l, x)
            more = z3.And(l != 0, n < s.LEN(l))
            c.ens('pos', z3.Implies(l != 0, z3.And(n >= 0, n <= s.LEN(l))))
            c.ens('end', z3.Implies(z3.Not(more), c.res == 0))
            c.ens('next', z3.Implies(more, z3.And(c.res != 0, c.res == s.ELT(l, n))))
            c.ens('advance', z3.Implies(more, z3.And(y > x, y <= s.NTOT(l), s.POS(l, y) == n + 1)))

        @reg('MESH_%s%s_List' % (nm, k.N), GH)
        def _(c, m, k=k, LL=LL):
            c.req('mesh', m > 0)
            yield
            c.ens('list', c.res == LL(c.pre, m, k))

        @reg('MESH_Add_%s%s' % (nm, k.N), GH)
        def _(c, m, e, k=k, LL=LL, nm=nm):
            ALLK(c, m, none=True)
            f1(c, m)
            s = c.pre
            l = LL(s, m, k)
            c.req('entity', z3.And(e > 0, s.IDV(e) >= 1))
            c.req('list', wfnull(c, s, l))
            c.req('room', z3.Implies(l != 0, s.NTOT(l) < MAXL))
            gaddmods(c, m, k, LL)
            yield
            gadded(c, m, e, k, LL)

    @reg('MESH_Num_Interior' + k.NP, GH)
    def _(c, m, k=k):
        ALLK(c, m, k)
        f1(c, m)
        s = c.pre
        for LL in (GL, OL):
            c.req('list', wfnull(c, s, LL(s, m, k)))
            c.req('empty', z3.Implies(L(s, m, k) == 0, LL(s, m, k) == 0))
        yield
        n = lambda l: z3.If(l == 0, 0, s.LEN(l))
        c.ens('count', c.res == z3.If(L(s, m, k) == 0, 0, n(L(s, m, k)) - n(GL(s, m, k)) - n(OL(s, m, k))))

    @reg('MESH_Next_Interior' + k.N, GH)
    def _(c, m, ip, k=k):
        ALLK(c, m, k)
        f1(c, m)
        s = c.pre
        l = L(s, m, k)
        x = stepping(c, m, ip, l)
        q = z3.Int('q')
        p0 = s.POS(l, x)
        def h(LV):
            y = LV.s.at(ip, 0, 'i32')
            p = s.POS(l, y)
            out = {'r': z3.And(y >= 0, y <= s.NTOT(l), y >= x)}
            for n, o in LV.ptrs.items():
                o = iv(o)
                out['at', n] = z3.Implies(o != 0, z3.And(p >= p0 + 1, p <= s.LEN(l), o == s.ELT(l, p - 1)))
                out['end', n] = z3.Implies(o == 0, p >= s.LEN(l))
                out['end2', n] = z3.Implies(o == 0, z3.ForAll([q], z3.Implies(z3.And(p0 <= q, q < s.LEN(l)), s.PT(s.ELT(l, q)) != 0), patterns=[s.ELT(l, q)]))
                out['skip', n] = z3.ForAll([q], z3.Implies(z3.And(p0 <= q, q < p - z3.If(o != 0, 1, 0), q < s.LEN(l)), s.PT(s.ELT(l, q)) != 0), patterns=[s.ELT(l, q)])
            return out
        c.inv(h)
        yield
        t = c.post
        y = t.at(ip, 0, 'i32')
        r = c.res
        e = s.ELT(l, q)
        p = s.POS(l, y)
        c.ens('found', z3.Implies(r != 0, z3.And(l != 0, s.PT(r) == 0, p > p0, p <= s.LEN(l), r == s.ELT(l, p - 1), y > x, y <= s.NTOT(l))))
        c.ens('skipped', z3.Implies(r != 0, c.forall(1, lambda i: z3.Implies(z3.And(p0 <= i, i < p - 1), s.PT(s.ELT(l, i)) != 0), lambda i: s.ELT(l, i))))
        c.ens('end', z3.Implies(z3.And(r == 0, l != 0), c.forall(1, lambda i: z3.Implies(z3.And(p0 <= i, i < s.LEN(l)), s.PT(s.ELT(l, i)) != 0), lambda i: s.ELT(l, i))))


# ---- building the lists: each holds, in mesh order and once each, the entities marked so
BLD = []
def filt(c, m, k, LL, pt):
    """KC(q): how many of the first q entities are marked pt; KI(j): the position of the j-th of them (ghosts, defined by recursion)"""
    s = c.pre
    l = L(s, m, k)
    nm = '%d_%d' % (k.i, pt)
    KC = z3.Function('KC' + nm, z3.IntSort(), z3.IntSort())
    KI = z3.Function('KI' + nm, z3.IntSort(), z3.IntSort())
    q = z3.Int('q')
    c.ghost(z3.And(KC(0) == 0, z3.Implies(l != 0, KC(s.LEN(l)) >= 0)))
    p = s.POS(l, q)
    x = s.ELT(l, p)
    c.ghost(z3.ForAll([q], z3.Implies(z3.And(l != 0, 0 <= p, p < s.LEN(l)), z3.And(KC(p) >= 0, KC(p + 1) == KC(p) + z3.If(s.PT(x) == pt, 1, 0), z3.Implies(s.PT(x) == pt, KI(KC(p)) == p))), patterns=[x]))
    return KC, KI

def filtered(c, t, s, l, lr, pt, KC, KI, pos, full=True):
    e, e0 = t.ELT(lr, J0), s.ELT(l, K0)
    n = z3.If(lr == 0, 0, t.LEN(lr))
    out = {'len': z3.And(n == KC(pos), z3.Implies(lr != 0, z3.And(WF(c, t, lr), lr >= c.pre.next, t.LEN(lr) >= 1, t.LEN(lr) <= pos, t.NTOT(lr) <= pos))),
           'from': z3.Implies(z3.And(lr != 0, 0 <= J0, J0 < t.LEN(lr)), z3.And(0 <= KI(J0), KI(J0) < pos, KC(KI(J0)) == J0, s.PT(e) == pt, e == s.ELT(l, KI(J0)))),
           'all': z3.Implies(z3.And(0 <= K0, K0 < pos, s.PT(e0) == pt), z3.And(lr != 0, KC(K0) >= 0, KC(K0) < n, t.ELT(lr, KC(K0)) == e0))}
    return out

for nm, ks in (('Surf', KS[:3]), ('Vol', KS)):
    @reg('MESH_%s_Build_GhostLists' % nm, BLD, generic=False, hto=12)
    def _(c, m, ks=ks):
        ALLK(c, m)
        f1(c, m)
        s = c.pre
        F = {}
        for k in ks:
            l = L(s, m, k)
            c.req('cleared', z3.And(GL(s, m, k) == 0, OL(s, m, k) == 0))
            c.req('ids', z3.Implies(l != 0, elts(c, s, l, lambda i, v: s.IDV(v) >= 1)))
            c.req('room', z3.Implies(l != 0, s.NTOT(l) < MAXL))
            for _, LL, pt in LISTS2:
                F[k.i, pt] = filt(c, m, k, LL, pt)
                c.mod(('F', k.gh if LL is GL else k.ov, 'ptr'), m)
        c.mod(('F', 132, 'i32'), m)
        for v in ('LEN', 'NTOT', 'ELT', 'POS'):
            c.mod(v, FRESH)
        c.allocates()
        q = z3.Int('q')
        def h(LV):
            out = {}
            t = LV.s
            al = [LL(t, m, k) for k in ks for _, LL, _ in LISTS2]
            for i, a in enumerate(al):
                for j, b in enumerate(al[:i]):
                    out['apart', i, j] = z3.Or(a == 0, a != b)
            here = [k.i for k in KS if 'MESH_Next_' + k.N in LV.calls]
            cur = here[0] if len(here) == 1 else None
            for k in ks:
                l = L(s, m, k)
                for v in ('ELT', 'POS'):
                    out['frame', k.i, v] = z3.Implies(l != 0, z3.ForAll([q], getattr(t, v)(l, q) == getattr(s, v)(l, q), patterns=[getattr(t, v)(l, q)]))
                for v in ('LEN', 'NTOT'):
                    out['frame', k.i, v] = z3.Implies(l != 0, getattr(t, v)(l) == getattr(s, v)(l))
                for _, LL, pt in LISTS2:
                    lr = LL(t, m, k)
                    n = z3.If(l == 0, 0, s.LEN(l))
                    KC, KI = F[k.i, pt]
                    if cur is None or k.i > cur:
                        out['todo', k.i, pt] = lr == 0
                    if cur is None or k.i < cur:
                        for w, f in filtered(c, t, s, l, lr, pt, KC, KI, n).items():
                            out['done', k.i, pt, w] = f
                    if cur is None or k.i == cur:
                        for i, y in LV.ints.items():
                            y = iv(y)
                            pos = z3.If(l == 0, 0, s.POS(l, y))
                            if pt == 3:
                                out['rng', k.i, i] = z3.And(y >= 0, z3.Implies(l != 0, y <= s.NTOT(l)), pos >= 0)
                            for w, f in filtered(c, t, s, l, lr, pt, KC, KI, pos).items():
                                out['doing', k.i, pt, w, i] = f
            return out
        c.inv(h)
        yield
        t = c.post
        for k in ks:
            l = L(s, m, k)
            n = z3.If(l == 0, 0, s.LEN(l))
            for nm, LL, pt in LISTS2:
                KC, KI = F[k.i, pt]
                lr = LL(t, m, k)
                for w, f in filtered(c, t, s, l, lr, pt, KC, KI, n).items():
                    c.ens(nm + '-' + w, f)

GFG = []
@reg('MESH_GhostVertexFromGlobalID', GFG)
def _(c, m, id):
    """the ghost and then the overlap list are stepped through; J0 is an arbitrary position"""
    ALLK(c, m, none=True)
    f1(c, m)
    s = c.pre
    ls = [LL(s, m, KS[0]) for _, LL, _ in LISTS2]
    for l in ls:
        c.req('list', wfnull(c, s, l))
        c.ghost(s.POS(l, 0) == 0)
    def h(LV):
        out = {}
        for i, l in enumerate(ls):
            for n, y in LV.ints.items():
                y = iv(y)
                pos = s.POS(l, y)
                out['scan', i, n] = z3.Implies(l != 0, z3.And(y >= 0, y <= s.NTOT(l), pos >= 0, pos <= s.LEN(l), z3.Implies(z3.And(0 <= J0, J0 < pos), s.GID(s.ELT(l, J0)) != id)))
                out['rng', i, n] = z3.Implies(l != 0, z3.And(y >= 0, y <= s.NTOT(l)))
                out['pos', n] = y >= 0
        return out
    c.inv(h)
    yield
    for l in ls:
        c.ens('none', z3.Implies(z3.And(c.res == 0, l != 0, 0 <= J0, J0 < s.LEN(l)), s.GID(s.ELT(l, J0)) != id))
    c.ens('found', z3.Implies(c.res != 0, z3.And(s.GID(c.res) == id, z3.Or([z3.And(l != 0, inlres(c, s, l, c.res)) for l in ls]))))

# ---- looking entities up by global ID: copies of the entity lists, sorted by global ID
GSE = []
def GI_(s, m, k): return s.fld(m, k.gid, 'ptr')
def GFLAG(s, m): return s.fld(m, 264, 'i32')
WHYG = 'the list searched by global ID is a list of its own'

def gidlists(c, m):
    s = c.pre
    for k in KS:
        l = GI_(s, m, k)
        c.assume(z3.Implies(l != 0, z3.And(KIND(l) == 81 + k.i, OWN(l) == iv(m))), WHYG)

def gsorted(c, t, l):
    return c.forall(2, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < t.LEN(l)), t.GID(t.ELT(l, i)) <= t.GID(t.ELT(l, j))), lambda i, j: z3.MultiPattern(t.ELT(l, i), t.ELT(l, j)))

for nm, VW in (('compareGlobalID', 'GID'), ('compareID', 'IDV')):
    @reg(nm, GSE, bounds=True)
    def _(c, a, b, V=VW):
        s = c.pre
        c.req('pointers', z3.And(a > 0, b > 0, s.CAP(a) >= 8, s.CAP(b) >= 8))
        x, y = s.at(a, 0, 'ptr'), s.at(b, 0, 'ptr')
        c.req('entities', z3.And(x > 0, y > 0))
        v = lambda e: getattr(s, V)(e)
        c.req('range', z3.And(v(x) >= 0, v(y) >= 0, v(x) < 1 << 31, v(y) < 1 << 31))
        yield
        c.ens('less', (c.res < 0) == (v(x) < v(y)))
        c.ens('equal', (c.res == 0) == (v(x) == v(y)))

@reg('MESH_Sort_GlobalIDSearch_Lists', GSE)
def _(c, m):
    ALLK(c, m, none=True)
    gidlists(c, m)
    s = c.pre
    G = {}
    for k in KS:
        l = GI_(s, m, k)
        G[k.i] = l != 0
        c.req('copied', (N(s, m, k) != 0) == (l != 0))
        c.req('copied', z3.Implies(G[k.i], z3.And(WF(c, s, l), s.LEN(l) == N(s, m, k))))
        listmods(c, l)
        c.mod('SRTP', l)
        c.mod('SRTQ', l)
    c.mod(('F', 264, 'i32'), m)
    yield
    t = c.post
    c.ens('flag', GFLAG(t, m) != 0)
    for k in KS:
        l = GI_(s, m, k)
        g, n = G[k.i], s.LEN(l)
        c.ens('same-count', z3.Implies(g, z3.And(WF(c, t, l), t.LEN(l) == n, t.NTOT(l) == n)))
        c.ens('sorted', z3.Implies(g, gsorted(c, t, l)))
        p, q = t.SRTP(l, I0), t.SRTQ(l, I0)
        if c.verifying:
            c.term(s.ELT(l, I0), t.ELT(l, I0))
        c.ens('nothing-lost', z3.Implies(z3.And(g, 0 <= I0, I0 < n), z3.And(0 <= q, q < n, t.ELT(l, q) == s.ELT(l, I0))))
        c.ens('nothing-new', z3.Implies(z3.And(g, 0 <= I0, I0 < n), z3.And(0 <= p, p < n, s.ELT(l, p) == t.ELT(l, I0))))

@reg('MESH_Enable_GlobalIDSearch', GSE)
def _(c, m):
    ALLK(c, m)
    gidlists(c, m)
    s = c.pre
    for k in KS:
        c.req('not-enabled', GI_(s, m, k) == 0)
        c.mod(('F', k.gid, 'ptr'), m)
    for v in ('LEN', 'NTOT', 'ELT', 'POS', 'SRTP', 'SRTQ'):
        c.mod(v, FRESH)
    c.mod(('F', 264, 'i32'), m)
    c.allocates()
    yield
    t = c.post
    c.ens('flag', GFLAG(t, m) != 0)
    for k in KS:
        l0, l = L(s, m, k), GI_(t, m, k)
        n = s.LEN(l0)
        g = N(s, m, k) != 0
        c.ens('none', z3.Implies(z3.Not(g), l == 0))
        c.ens('copy', z3.Implies(g, z3.And(l >= s.next, WF(c, t, l), t.LEN(l) == n, t.NTOT(l) == n)))
        c.ens('sorted', z3.Implies(g, gsorted(c, t, l)))
        p, q = t.SRTP(l, I0), t.SRTQ(l, I0)
        if c.verifying:
            c.term(s.ELT(l0, I0), t.ELT(l, I0), s.ELT(l0, p))
        c.ens('nothing-lost', z3.Implies(z3.And(g, 0 <= I0, I0 < n), z3.And(0 <= q, q < n, t.ELT(l, q) == s.ELT(l0, I0))))
        c.ens('nothing-new', z3.Implies(z3.And(g, 0 <= I0, I0 < n), z3.And(0 <= p, p < n, s.ELT(l0, p) == t.ELT(l, I0))))

for k in KS:
    @reg('MESH_%sFromGlobalID' % k.N, GSE)
    def _(c, m, id, k=k):
        ALLK(c, m, none=True)
        gidlists(c, m)
        s = c.pre
        l = GI_(s, m, k)
        c.req('enabled', z3.And(l != 0, GFLAG(s, m) != 0, WF(c, s, l), s.NTOT(l) == s.LEN(l), s.LEN(l) == N(s, m, k)))
        c.req('sorted', gsorted(c, s, l))
        c.allocates()
        for v in ('LEN', 'NTOT', 'ELT', 'POS'):
            c.mod(v, FRESH)
        yield
        c.ens('none', z3.Implies(c.res == 0, elts(c, s, l, lambda i, v: s.GID(v) != id)))
        c.ens('found', z3.Implies(c.res != 0, z3.And(s.GID(c.res) == id, inlres(c, s, l, c.res))))

ISGID = z3.Function('ORDERS_BY_GLOBAL_ID', z3.IntSort(), z3.BoolSort())
SGL = []
@reg('MESH_Sort_GhostLists', SGL)
def _(c, m, fn):
    ALLK(c, m, none=True)
    s = c.pre
    if c.verifying:
        c.ex.fnkey = [(iv(fn), 'GID')]
        c.req('comparator', ISGID(iv(fn)))
    else:
        n = [v for k, v in c.ex.fnids.items() if z3.is_int_value(z3.simplify(iv(fn))) and k == z3.simplify(iv(fn)).as_long()]
        c.req('comparator', n == ['compareGlobalID'])
    ls = [(nm, LL(s, m, k)) for nm, LL, _ in LISTS2 for k in KS]
    for nm, l in ls:
        c.req('lists', wfnull(c, s, l))
        listmods(c, l)
        c.mod('SRTP', l)
        c.mod('SRTQ', l)
    yield
    t = c.post
    for nm, l in ls:
        n = s.LEN(l)
        c.ens(nm + '-count', z3.Implies(l != 0, z3.And(WF(c, t, l), t.LEN(l) == n, t.NTOT(l) == n)))
        c.ens(nm + '-sorted', z3.Implies(z3.And(l != 0, 0 <= I0, I0 < J0, J0 < n), t.GID(t.ELT(l, I0)) <= t.GID(t.ELT(l, J0))))
        p, q = t.SRTP(l, I0), t.SRTQ(l, I0)
        c.ens(nm + '-lost', z3.Implies(z3.And(l != 0, 0 <= I0, I0 < n), z3.And(0 <= q, q < n, t.ELT(l, q) == s.ELT(l, I0))))
        c.ens(nm + '-new', z3.Implies(z3.And(l != 0, 0 <= I0, I0 < n), z3.And(0 <= p, p < n, s.ELT(l, p) == t.ELT(l, I0))))
