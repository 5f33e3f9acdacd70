"""Contracts for attribute values of entities (src/base/MEntity.c, src/base/MAttrib.c) and mesh sets (src/base/MSet.c).

Entities, attributes and attribute values are concrete records; lists are abstract."""
from verify import *
import lists
import ents
from lists import WF, MAXL, elts
from topo import KIND, OWN, I0, J0

def AILF(s, x): return s.fld(x, 8, 'ptr')
AILF.fam = ('F', 8, 'ptr')
CONCRETE = {'AIL': AILF}
VAL = []            # functions on attribute values
INT, DBL, PTR, VEC, TEN = range(5)
WHY = 'entities, attribute values, attributes and lists are different objects; a value belongs to one entity'

def reg(n, lst, **kw):
    def d(g):
        lst.append(n)
        return contract(n, **kw)(g)
    return d
def AT(s, o): return s.fld(o, 0, 'ptr')            # attribute of a value record
def IV(s, o): return s.fld(o, 8, 'i32')
def DV(s, o): return s.fld(o, 8, 'double')
def PV(s, o): return s.fld(o, 8, 'ptr')
def TY(s, a): return s.fld(a, 8, 'i32')            # type, number of components of an attribute
def NC(s, a): return s.fld(a, 12, 'i32')
def EL(s, a, i): return s.elem(a, i, 'double')

def values(c, x, uniq=True):
    """the values of entity x: valid records, at most one per attribute"""
    s = c.pre
    l = AILF(s, x)
    inr = lambda i: z3.And(l != 0, 0 <= i, i < s.LEN(l))
    c.req('entity', x > 0)
    c.req('list', z3.Implies(l != 0, WF(c, s, l)))
    c.req('values', c.forall(1, lambda i: z3.Implies(inr(i), z3.And(s.ELT(l, i) > 0, AT(s, s.ELT(l, i)) > 0)), lambda i: s.ELT(l, i)))
    c.assume(z3.And(KIND(iv(x)) == 60, z3.Implies(l != 0, z3.And(KIND(l) == 61, OWN(l) == iv(x)))), WHY)
    c.assume(c.forall(1, lambda i: z3.Implies(inr(i), z3.And(KIND(s.ELT(l, i)) == 62, OWN(s.ELT(l, i)) == iv(x))), lambda i: s.ELT(l, i)), WHY)
    c.assume(c.forall(2, lambda i, j: z3.Implies(z3.And(inr(i), inr(j), i != j), s.ELT(l, i) != s.ELT(l, j)), lambda i, j: z3.MultiPattern(s.ELT(l, i), s.ELT(l, j))), WHY)
    if uniq:
        c.req('one-value-each', c.forall(2, lambda i, j: z3.Implies(z3.And(inr(i), inr(j), i != j), AT(s, s.ELT(l, i)) != AT(s, s.ELT(l, j))), lambda i, j: z3.MultiPattern(s.ELT(l, i), s.ELT(l, j))))
    c.ghost(s.POS(l, 0) == 0)               # by definition: no entry stands before position 0
    return l, inr

def attrib(c, a):
    s = c.pre
    c.req('attribute', z3.And(a > 0, TY(s, a) >= 0, TY(s, a) <= 4, NC(s, a) >= 1, NC(s, a) < MAXL))
    c.assume(KIND(iv(a)) == 63, WHY)

def scan(c, l, a):
    """entries before the iteration index belong to other attributes"""
    s = c.pre
    def h(LV):
        out = {}
        q = z3.Int('q')
        for n, i in LV.ints.items():
            for tag, pos in (('p', LV.s.POS(l, iv(i))), ('i', iv(i))):
                out[('seen', tag, n)] = z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < pos, q < s.LEN(l)), AT(s, s.ELT(l, q)) != a), patterns=[s.ELT(l, q)])
            out[('rng', n)] = z3.And(iv(i) >= 0, iv(i) <= s.NTOT(l))
            for n2, k in LV.ints.items():
                if n2 != n:
                    out[('is', n, n2)] = iv(k) == LV.s.POS(l, iv(i))
                    out[('is2', n, n2)] = iv(k) <= s.LEN(l)
        return out
    c.inv(h)

def got(c, s, x, a, res, i, d, p):
    """what the query reports is the value of a on x"""
    l = AILF(s, x)
    inr = lambda j: z3.And(l != 0, 0 <= j, j < s.LEN(l))
    t = TY(s, a)
    def val(o): return z3.And(z3.Implies(t == INT, i == IV(s, o)), z3.Implies(t == DBL, d == DV(s, o)), z3.Implies(t >= PTR, p == PV(s, o)))
    has = lambda j: z3.And(inr(j), AT(s, s.ELT(l, j)) == a)
    if res is not None:
        c.ens('status', z3.Or(res == 0, res == 1))
        c.ens('has', c.forall(1, lambda j: z3.Implies(has(j), res == 1), lambda j: s.ELT(l, j)))
    c.ens('value', c.forall(1, lambda j: z3.Implies(has(j), val(s.ELT(l, j))), lambda j: s.ELT(l, j)))
    none = c.forall(1, lambda j: z3.Not(has(j)), lambda j: s.ELT(l, j))
    zero = z3.And(i == 0, d == 0, p == 0)
    if res is not None:
        w = z3.Int('w') if c.verifying else c.ex.fresh('w')
        f = has(w)
        c.ens('found', z3.Implies(res == 1, z3.Exists([w], f, patterns=[s.ELT(l, w)]) if c.verifying else f))
        c.ens('nothing', z3.Implies(res == 0, zero))
        c.ens('others-zero', z3.Implies(res == 1, z3.And(z3.Implies(t != INT, i == 0), z3.Implies(t != DBL, d == 0), z3.Implies(t < PTR, p == 0))))
    else:
        c.ens('nothing', z3.Implies(none, zero))

@reg('MEnt_Get_AttVal', VAL)
def _(c, x, a, ip, dp, pp):
    l, inr = values(c, x)
    attrib(c, a)
    s = c.pre
    c.req('results', z3.And(ip != 0, dp != 0, pp != 0))
    for o in (ip, dp, pp):
        c.cell(o)
    c.mod(('E', 'i32'), ip)
    c.mod(('E', 'double'), dp)
    c.mod(('E', 'ptr'), pp)
    scan(c, l, a)
    yield
    t = c.post
    got(c, s, x, a, c.res, t.at(ip, 0, 'i32'), t.at(dp, 0, 'double'), t.at(pp, 0, 'ptr'))

for nm, ty in (('Int', INT), ('Dbl', DBL), ('Ptr', PTR), ('Vec', VEC), ('Tnsr', TEN)):
    @reg('MEnt_Get_%sAttVal' % nm, VAL)
    def _(c, x, a, ty=ty):
        l, inr = values(c, x)
        attrib(c, a)
        s = c.pre
        c.req('type', TY(s, a) == ty)
        yield
        got(c, s, x, a, None, c.res if ty == INT else iv(0), c.res if ty == DBL else iv(0), c.res if ty >= PTR else iv(0))

def setmods(c, x, a, lst=True):
    s = c.pre
    l = AILF(s, x)
    c.mod(('F', 8, 'ptr'))
    c.mod(('F', 8, 'i32'))
    c.mod(('F', 8, 'double'))
    for v in ('LEN', 'NTOT', 'ELT', 'POS') if lst else ():
        c.mod(v, l)
        c.mod(v, FRESH)
    c.allocates()

OB = z3.Int('OB')           # rigid: an arbitrary object
def others(c, x, isval):
    """every record that is not a value of this attribute on x keeps its contents"""
    s, t = c.pre, c.post
    l = AILF(s, x)
    keep = lambda o: z3.And(IV(t, o) == IV(s, o), DV(t, o) == DV(s, o), PV(t, o) == PV(s, o))
    if c.verifying:
        c.ens('others', z3.Implies(z3.And(OB > 0, OB < s.next, OB != iv(x), z3.Not(isval(OB))), keep(OB)))
    else:
        for fam in ('i32', 'double', 'ptr'):
            f = lambda st, o: st.fld(o, 8, fam)
            o = z3.Int('ob')
            c.ens('others', z3.ForAll([o], z3.Implies(z3.And(o > 0, o < s.next, o != iv(x), z3.Not(isval(o))), f(t, o) == f(s, o)), patterns=[f(t, o)]))

def stored(c, t, s, o, ty, n, i, d, p):
    """record o holds the value; vectors and tensors are copied into a new array (NULL: zeros)"""
    arr = PV(t, o)
    el = lambda q: EL(t, arr, q) == z3.If(p == 0, z3.RealVal(0), EL(s, p, q))
    J = z3.Int('JC')
    return z3.And(z3.Implies(ty == INT, IV(t, o) == i), z3.Implies(ty == DBL, DV(t, o) == d), z3.Implies(ty == PTR, PV(t, o) == p),
                  z3.Implies(z3.Or(ty == VEC, ty == TEN), z3.And(arr >= s.next, z3.Implies(z3.And(0 <= J0, J0 < n), el(J0)) if c.verifying else z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < n), el(J))))))

def setval(c, x, a, i, d, p, create=True):
    l, inr = values(c, x)
    attrib(c, a)
    s = c.pre
    c.req('data', z3.Implies(z3.Or(TY(s, a) == VEC, TY(s, a) == TEN), p >= 0))
    if create:
        c.req('room', z3.Implies(l != 0, z3.And(s.LEN(l) < MAXL, s.NTOT(l) < MAXL)))
    setmods(c, x, a, create)
    scan(c, l, a)
    yield
    t = c.post
    l2 = AILF(t, x)
    n = z3.If(l == 0, 0, s.LEN(l))
    has = lambda j: z3.And(inr(j), AT(s, s.ELT(l, j)) == a)
    if not create:
        c.ens('same-list', l2 == l)
        c.ens('value', c.forall(1, lambda j: z3.Implies(has(j), stored(c, t, s, s.ELT(l, j), TY(s, a), NC(s, a), i, d, p)), lambda j: s.ELT(l, j)))
        others(c, x, lambda o: z3.And(KIND(o) == 62, OWN(o) == iv(x), AT(s, o) == a) )
        return
    m = t.LEN(l2)
    c.ens('list', z3.And(l2 > 0, WF(c, t, l2), z3.Or(l2 == l, z3.And(l == 0, l2 >= s.next)), z3.Or(m == n, m == n + 1)))
    c.ens('kept', c.forall(1, lambda j: z3.Implies(z3.And(0 <= j, j < n), t.ELT(l2, j) == s.ELT(l, j)), lambda j: t.ELT(l2, j)))
    c.ens('only-if-absent', z3.Implies(m == n + 1, c.forall(1, lambda j: z3.Not(has(j)), lambda j: s.ELT(l, j))))
    e = t.ELT(l2, n)
    c.ens('new-value', z3.Implies(m == n + 1, z3.And(e >= s.next, AT(t, e) == a, stored(c, t, s, e, TY(s, a), NC(s, a), i, d, p))))
    w = z3.Int('w') if c.verifying else c.ex.fresh('w')
    f = z3.And(0 <= w, w < n, has(w))
    c.ens('present', z3.Implies(m == n, z3.Exists([w], f, patterns=[s.ELT(l, w)]) if c.verifying else f))
    c.ens('value', c.forall(1, lambda j: z3.Implies(has(j), stored(c, t, s, s.ELT(l, j), TY(s, a), NC(s, a), i, d, p)), lambda j: s.ELT(l, j)))
    others(c, x, lambda o: z3.And(KIND(o) == 62, OWN(o) == iv(x), AT(s, o) == a))

@reg('MEnt_Set_AttVal', VAL)
def _(c, x, a, i, d, p):
    yield from setval(c, x, a, i, d, p)

@reg('MEnt_Clear_AttVal', VAL)
def _(c, x, a):
    yield from setval(c, x, a, iv(0), z3.RealVal(0), iv(0), create=False)

@reg('MEnt_Rem_AttVal', VAL)
def _(c, x, a):
    l, inr = values(c, x)
    attrib(c, a)
    s = c.pre
    for v in ('LEN', 'NTOT', 'ELT', 'POS'):
        c.mod(v, l)
    scan(c, l, a)
    yield
    t = c.post
    n = s.LEN(l)
    has = lambda j: z3.And(inr(j), AT(s, s.ELT(l, j)) == a)
    c.ens('wf', z3.Implies(l != 0, WF(c, t, l)))
    c.ens('gone', z3.Implies(l != 0, elts(c, t, l, lambda j, v: AT(s, v) != a)))
    none = c.forall(1, lambda j: z3.Not(has(j)), lambda j: s.ELT(l, j))
    same = z3.And(t.LEN(l) == n, elts(c, t, l, lambda j, v: v == s.ELT(l, j)))
    w = z3.Int('w') if c.verifying else c.ex.fresh('w')
    f = z3.And(has(w), t.LEN(l) == n - 1, c.forall(1, lambda j: z3.Implies(z3.And(0 <= j, j < n - 1), t.ELT(l, j) == s.ELT(l, z3.If(j < w, j, j + 1))), lambda j: t.ELT(l, j)))
    c.ens('others-kept', z3.Implies(l != 0, z3.Or(same, z3.Exists([w], f, patterns=[s.ELT(l, w)]) if c.verifying else f)))

@reg('MEnt_Rem_AllAttVals', VAL)
def _(c, x):
    l, inr = values(c, x, uniq=False)
    s = c.pre
    c.req('attributes', c.forall(1, lambda j: z3.Implies(inr(j), z3.And(TY(s, AT(s, s.ELT(l, j))) >= 0, AT(s, s.ELT(l, j)) > 0)), lambda j: s.ELT(l, j)))
    c.mod(('F', 8, 'ptr'), x)
    for v in ('LEN', 'NTOT', 'ELT', 'POS'):
        c.mod(v, l)
    c.inv(lambda LV: {('rng', n): z3.And(iv(i) >= 0, iv(i) <= s.NTOT(l)) for n, i in LV.ints.items()})
    yield
    c.ens('none', AILF(c.post, x) == 0)

# ---- attributes of a mesh ----
MESHA = []
from mesh import KS, L as ML
MK = z3.Function('MK', z3.IntSort(), z3.IntSort())      # which entity list of the mesh an entity stands in
MP = z3.Function('MP', z3.IntSort(), z3.IntSort())      # and where
X0 = z3.Int('X0')
VIEWS = ('LEN', 'NTOT', 'ELT', 'POS')

def meshatt(c, m, a):
    """the mesh, its attribute list and the values of all its entities"""
    s = c.pre
    al = s.fld(m, 64, 'ptr')
    c.req('mesh', z3.And(m > 0, s.fld(m, 0, 'i32') == 0))
    attrib(c, a)
    c.req('attributes', z3.Implies(al != 0, WF(c, s, al)))
    c.ghost(s.POS(al, 0) == 0)
    c.assume(z3.And(KIND(iv(m)) == 50, z3.Implies(al != 0, KIND(al) == 64)), WHY)
    for k in KS:
        l = ML(s, m, k)
        n = s.fld(m, k.cnt, 'i32')
        c.req('list', z3.If(l == 0, n == 0, z3.And(WF(c, s, l), n == s.LEN(l))))
        c.ghost(s.POS(l, 0) == 0)
        c.assume(z3.Implies(l != 0, z3.And(KIND(l) == 51 + k.i, OWN(l) == iv(m))), WHY)
        c.assume(c.forall(1, lambda i: z3.Implies(z3.And(l != 0, 0 <= i, i < s.LEN(l)), z3.And(KIND(s.ELT(l, i)) == 60, s.ELT(l, i) > 0, MK(s.ELT(l, i)) == k.i, MP(s.ELT(l, i)) == i)), lambda i: s.ELT(l, i)),
                 'an entity stands in one entity list of the mesh, at one position')
    x = z3.Int('xq')
    i, j = z3.Ints('iq jq')
    lx = AILF(s, x)
    inr = lambda i: z3.And(KIND(x) == 60, lx != 0, 0 <= i, i < s.LEN(lx))
    e = s.ELT(lx, i)
    al2 = lambda f, *p: z3.ForAll([x] + [v for v in (i, j) if any(v.eq(q) for q in p)], f, patterns=[z3.MultiPattern(*[s.ELT(lx, q) for q in p]) if p else lx])
    c.req('values', al2(z3.Implies(z3.And(KIND(x) == 60, lx != 0), WF(c, s, lx))))
    c.ghost(al2(s.POS(lx, 0) == 0))
    c.assume(al2(z3.Implies(z3.And(KIND(x) == 60, lx != 0), z3.And(KIND(lx) == 61, OWN(lx) == x))), WHY)
    c.req('values', al2(z3.Implies(inr(i), z3.And(e > 0, AT(s, e) > 0)), i))
    c.assume(al2(z3.Implies(inr(i), z3.And(KIND(e) == 62, OWN(e) == x)), i), WHY)
    c.assume(al2(z3.Implies(z3.And(inr(i), inr(j), i != j), e != s.ELT(lx, j)), i, j), WHY)
    c.req('one-value-each', al2(z3.Implies(z3.And(inr(i), inr(j), i != j), AT(s, e) != AT(s, s.ELT(lx, j))), i, j))
    return al

def sweep(c, m, goal, frame):
    """loops over the entity lists: what is still to come is untouched, what has passed satisfies the goal"""
    s = c.pre
    def h(LV):
        out = {}
        t = LV.s
        al = s.fld(m, 64, 'ptr')
        out['al'] = z3.Implies(al != 0, t.LEN(al) == LV.s0.LEN(al))
        ks = [k for k in KS if 'MESH_Next_' + k.N in LV.calls] or KS
        for k in KS:
            l = ML(s, m, k)
            out["list", k.i] = z3.Implies(l != 0, z3.And([z3.ForAll([z3.Int('q')], getattr(t, v)(l, z3.Int('q')) == getattr(s, v)(l, z3.Int('q')), patterns=[getattr(t, v)(l, z3.Int('q'))]) for v in ("ELT", "POS")] + [t.LEN(l) == s.LEN(l), t.NTOT(l) == s.NTOT(l)]))
            if k not in ks:
                out['done', k.i] = z3.Implies(z3.And(l != 0, KIND(X0) == 60, MK(X0) == k.i, 0 <= MP(X0), MP(X0) < s.LEN(l), s.ELT(l, MP(X0)) == X0), goal(t))
        for n, i in LV.ints.items():
            for k in ks:
                l = ML(s, m, k)
                pos = t.POS(l, iv(i))
                out['rng', n, k.i] = z3.Implies(l != 0, z3.And(iv(i) >= 0, iv(i) <= s.NTOT(l), pos >= 0))
                for tag, td in (('a', lambda x: z3.Or(MK(x) > k.i, z3.And(MK(x) == k.i, z3.Or(l == 0, MP(x) >= pos)))), ('o', lambda x: z3.And(MK(x) == k.i, z3.Or(l == 0, MP(x) >= pos)))):
                    for q, f in frame(t, td).items():
                        out['frame', tag, q, n, k.i] = f
                out['done', n, k.i] = z3.Implies(z3.And(l != 0, KIND(X0) == 60, MK(X0) == k.i, 0 <= MP(X0), MP(X0) < pos, s.ELT(l, MP(X0)) == X0), goal(t))
        return out
    c.inv(h)

def inmesh(c, m, x):
    s = c.pre
    return z3.Or([z3.And(ML(s, m, k) != 0, MK(x) == k.i, 0 <= MP(x), MP(x) < s.LEN(ML(s, m, k)), s.ELT(ML(s, m, k), MP(x)) == x) for k in KS])

@reg('MESH_Rem_Attrib', MESHA, generic=False)
def _(c, m, a):
    al = meshatt(c, m, a)
    s = c.pre
    dim = s.fld(a, 16, 'i32')
    c.req('kind', z3.And(dim >= 0, dim <= 5))
    for v in VIEWS:
        c.mod(v)
    x, q = z3.Ints('xq q')
    lx = AILF(s, x)
    def frame(t, td):
        g = lambda *more: z3.And(KIND(x) == 60, lx != 0, td(x), *more)
        return {'len': z3.ForAll([x], z3.Implies(g(), z3.And(t.LEN(lx) == s.LEN(lx), t.NTOT(lx) == s.NTOT(lx))), patterns=[lx]),
                'elt': z3.ForAll([x, q], z3.Implies(g(), t.ELT(lx, q) == s.ELT(lx, q)), patterns=[t.ELT(lx, q)]),
                'pos': z3.ForAll([x, q], z3.Implies(g(), t.POS(lx, q) == s.POS(lx, q)), patterns=[t.POS(lx, q)])}
    l0 = AILF(s, X0)
    goal = lambda t: z3.Implies(z3.And(l0 != 0, 0 <= I0, I0 < t.LEN(l0)), AT(s, t.ELT(l0, I0)) != a)
    sweep(c, m, goal, frame)
    yield
    t = c.post
    c.ens('gone', z3.Implies(z3.And(al != 0, KIND(X0) == 60, inmesh(c, m, X0), z3.Or(dim == MK(X0), dim == 5)), goal(t)))
    c.ens('unlisted', z3.Implies(z3.And(al != 0, 0 <= J0, J0 < s.LEN(al), s.ELT(al, J0) == a), t.LEN(al) == s.LEN(al) - 1))

@reg('MESH_Clear_Attrib', MESHA, generic=False)
def _(c, m, a):
    al = meshatt(c, m, a)
    s = c.pre
    for f in ('ptr', 'i32', 'double'):
        c.mod(('F', 8, f))
    c.allocates()
    x, q = z3.Ints('xq q')
    lx = AILF(s, x)
    def frame(t, td):
        g = lambda *more: z3.And(KIND(x) == 60, td(x), *more)
        return {'ail': z3.ForAll([x], z3.Implies(z3.And(KIND(x) == 60, x > 0, x < s.next), AILF(t, x) == lx), patterns=[AILF(t, x)]),
                'typ': z3.And([TY(t, a) == TY(s, a)] + [t.fld(m, k.cnt, 'i32') == s.fld(m, k.cnt, 'i32') for k in KS])}
    l0 = AILF(s, X0)
    e = s.ELT(l0, I0)
    def goal(t):
        arr = PV(t, e)
        n = NC(s, a)
        ty = TY(s, a)
        return z3.Implies(z3.And(l0 != 0, 0 <= I0, I0 < s.LEN(l0), AT(s, e) == a),
            z3.And(z3.Implies(ty == INT, IV(t, e) == 0), z3.Implies(ty == DBL, DV(t, e) == 0), z3.Implies(ty == PTR, PV(t, e) == 0),
                   z3.Implies(ty >= VEC, z3.And(arr >= s.next, arr < t.next, z3.Implies(z3.And(0 <= J0, J0 < n), EL(t, arr, J0) == 0)))))
    sweep(c, m, goal, frame)
    def other(t):
        return z3.Implies(z3.And(l0 != 0, 0 <= I0, I0 < s.LEN(l0), AT(s, e) != a, e < s.next), z3.And(IV(t, e) == IV(s, e), DV(t, e) == DV(s, e), PV(t, e) == PV(s, e)))
    c.inv(lambda LV: {'other': z3.Implies(KIND(X0) == 60, other(LV.s))})
    yield
    t = c.post
    c.ens('cleared', z3.Implies(z3.And(al != 0, KIND(X0) == 60, inmesh(c, m, X0)), goal(t)))
    c.ens('other', z3.Implies(KIND(X0) == 60, other(t)))

for nm, ty in (('Int', INT), ('Dbl', DBL), ('Ptr', PTR), ('Vec', VEC), ('Tnsr', TEN)):
    @reg('MEnt_Set_%sAttVal' % nm, MESHA)
    def _(c, x, a, v, ty=ty):
        c.req('type', TY(c.pre, a) == ty)
        yield from setval(c, x, a, v if ty == INT else iv(0), v if ty == DBL else z3.RealVal(0), v if ty >= PTR else iv(0))

for nm, off in (('Type', 8), ('NumComps', 12), ('EntDim', 16)):
    @reg('MAttrib_Get_' + nm, MESHA)
    def _(c, a, off=off):
        c.req('attribute', a > 0)
        yield
        c.ens('value', c.res == c.pre.fld(a, off, 'i32'))

def attlist(c, m):
    s = c.pre
    al = s.fld(m, 64, 'ptr')
    c.req('mesh', m > 0)
    c.req('attributes', z3.Implies(al != 0, WF(c, s, al)))
    c.ghost(s.POS(al, 0) == 0)
    c.assume(z3.And(KIND(iv(m)) == 50, z3.Implies(al != 0, KIND(al) == 64)), WHY)
    return al, z3.If(al == 0, 0, s.LEN(al))

@reg('MESH_Num_Attribs', MESHA)
def _(c, m):
    al, n = attlist(c, m)
    yield
    c.ens('count', c.res == n)

@reg('MESH_Attrib', MESHA)
def _(c, m, i):
    al, n = attlist(c, m)
    c.req('index', z3.And(i >= 0, z3.Implies(al != 0, i < n)))
    yield
    c.ens('entry', c.res == z3.If(al == 0, 0, c.pre.ELT(al, i)))

@reg('MESH_Next_Attrib', MESHA)
def _(c, m, ip):
    al, n = attlist(c, m)
    s = c.pre
    x = s.at(ip, 0, 'i32')
    if c.verifying:
        c.req('out', iv(ip if not isinstance(ip, P) else ip.obj) > 0)
    c.req('idx', z3.Implies(al != 0, z3.And(x >= 0, x <= s.NTOT(al))))
    c.mod(('E', 'i32'), ip.obj if isinstance(ip, P) else ip)
    c.cell(ip if not isinstance(ip, P) else ip.obj)
    yield
    t = c.post
    y = t.at(ip, 0, 'i32')
    p = s.POS(al, x)
    more = z3.And(al != 0, p < n)
    c.ens('end', z3.Implies(z3.Not(more), c.res == 0))
    c.ens('next', z3.Implies(more, z3.And(c.res != 0, c.res == s.ELT(al, p))))
    c.ens('advance', z3.Implies(more, z3.And(y > x, y <= s.NTOT(al), s.POS(al, y) == p + 1)))

@reg('MESH_Add_Attrib', MESHA)
def _(c, m, a):
    al, n = attlist(c, m)
    s = c.pre
    c.req('attribute', a > 0)
    c.req('room', z3.Implies(al != 0, s.NTOT(al) < MAXL))
    c.mod(('F', 64, 'ptr'), m)
    for v in VIEWS:
        c.mod(v, al)
        c.mod(v, FRESH)
    c.allocates()
    yield
    t = c.post
    l2 = t.fld(m, 64, 'ptr')
    c.ens('list', z3.And(l2 > 0, WF(c, t, l2), z3.Implies(al != 0, l2 == al), t.LEN(l2) == n + 1, t.ELT(l2, n) == a))
    c.ens('kept', z3.Implies(al != 0, elts(c, s, al, lambda i, v: t.ELT(l2, i) == v)))

@reg('MAttrib_Clear', MESHA)
def _(c, a):
    yield from REG.contracts['MESH_Clear_Attrib'].gen(c, c.pre.fld(a, 24, 'ptr'), a)

@reg('MAttrib_Delete', MESHA)
def _(c, a):
    yield from REG.contracts['MESH_Rem_Attrib'].gen(c, c.pre.fld(a, 24, 'ptr'), a)
