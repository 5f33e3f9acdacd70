"""Contracts for the entity record (src/base/MEntity.c) and the per-type wrappers in MVertex.c, MEdge.c, MFace.c, MRegion.c.

Abstract view of an entity e: one value per field, independent of each other.
In MEntity.c the views are bit slices of the record; everywhere else they are ghost state."""
from verify import *
import lists

# name: (low bit, bits) within the packed 64-bit word at offset 16
PACK = {'DELD': (0, 1), 'VOLA': (1, 1), 'ODIM': (2, 3), 'IDV': (5, 27), 'RT': (32, 3), 'GD': (35, 3), 'GI': (38, 26)}
PAR = {'PT': (0, 2), 'PB': (2, 1), 'MP': (3, 29)}
FIELDS = list(PACK) + list(PAR) + ['GID', 'MARK', 'MESHV', 'AIL']
for v in FIELDS:
    REG.view(v, 1, isptr=v in ('MESHV', 'AIL'), nonneg=v not in ('GID', 'MARK', 'MESHV', 'AIL'))
REG.view('LIDSORT', 1)

def ext(x, lo, n):
    return z3.ZeroExt(32 - n, z3.Extract(lo + n - 1, lo, x))

CONCRETE = {}
for k, (lo, n) in PACK.items():
    CONCRETE[k] = (lambda lo, n: lambda s, e: ext(s.fld(e, 16, 'i64'), lo, n))(lo, n)
for k, (lo, n) in PAR.items():
    CONCRETE[k] = (lambda lo, n: lambda s, e: ext(s.fld(e, 28, 'i32'), lo, n))(lo, n)
CONCRETE['GID'] = lambda s, e: s.fld(e, 32, 'i32')
CONCRETE['MARK'] = lambda s, e: s.fld(e, 24, 'i32')
CONCRETE['MESHV'] = lambda s, e: s.fld(e, 0, 'ptr')
CONCRETE['AIL'] = lambda s, e: s.fld(e, 8, 'ptr')

RANGE = {k: 1 << n for k, (lo, n) in list(PACK.items()) + list(PAR.items())}

def impl(c):
    return 'IDV' in c.ex.layer

def setter(c, e, ch):
    """frame of a setter: exactly the fields in ch may change"""
    c.req('entity', e > 0)
    if impl(c):
        c.owns(e)
    else:
        for v in ch:
            c.mod(v, e)

def ens_set(c, e, ch):
    for v in FIELDS:
        if v in ch:
            if ch[v] is not None:
                c.ens('set-' + v, getattr(c.post, v)(e) == ch[v])
        elif impl(c):
            c.ens('keep-' + v, getattr(c.post, v)(e) == getattr(c.pre, v)(e))
        if not impl(c) and v in RANGE and v in ch:
            c.ens('range-' + v, z3.And(getattr(c.post, v)(e) >= 0, getattr(c.post, v)(e) < RANGE[v]))

def b01(c, x):
    return x

def ranges(c, s, e, *vs):
    """a field never holds more than its width"""
    if not impl(c):
        for v in vs:
            c.ens('range-' + v, z3.And(getattr(s, v)(e) >= 0, getattr(s, v)(e) < RANGE[v]))

def getter_contract(names, view, wrap=None):
    @contract(*names, bv=True)
    def _(c, e):
        c.req('entity', e > 0)
        yield
        v = getattr(c.pre, view)(e)
        if view in RANGE:
            ranges(c, c.pre, e, view)
        c.ens('value', c.res == v)
    return _

T = ('MV', 'ME', 'MF', 'MR')
def names(suffix, types=T, ent=True):
    return (['MEnt_' + suffix] if ent else []) + [t + '_' + suffix for t in types]

GET = {'ID': 'IDV', 'GEntDim': 'GD', 'GEntID': 'GI', 'Mesh': 'MESHV', 'GlobalID': 'GID', 'PType': 'PT', 'MasterParID': 'MP'}
SET = {'Set_GEntDim': 'GD', 'Set_GEntID': 'GI', 'Set_GlobalID': 'GID', 'Set_PType': 'PT', 'Set_MasterParID': 'MP'}
WRAPPERS, DIRECT = [], []
def kw(n):
    (DIRECT if n.startswith('MEnt_') else WRAPPERS).append(n)
    return {'bv': True} if n.startswith('MEnt_') else {}

def mk_get(n, view):
    @contract(n, **kw(n))
    def _(c, e):
        c.req('entity', e > 0)
        yield
        ranges(c, c.pre, e, *([view] if view in RANGE else []))
        c.ens('value', c.res == getattr(c.pre, view)(e))

def mk_set(n, view):
    @contract(n, **kw(n))
    def _(c, e, x):
        setter(c, e, {view: 1})
        if view in RANGE:
            c.req('range', z3.And(x >= 0, x < RANGE[view]))
        yield
        ens_set(c, e, {view: x})

for suf, view in GET.items():
    for n in names(suf):
        mk_get(n, view)
for suf, view in SET.items():
    for n in names(suf):
        mk_set(n, view)
for n in ['MEnt_OnParBoundary', 'MV_OnParBoundary', 'ME_OnParBoundary', 'MF_OnParBoundary']:
    mk_get(n, 'PB')
for n, view in (('MEnt_OrigDim', 'ODIM'), ('MEnt_IsVolatile', 'VOLA'), ('MEnt_RepType', 'RT')):
    mk_get(n, view)
mk_set('MEnt_Set_RepType_Data', 'RT')

def mk_flag(n, view, val):
    @contract(n, **kw(n))
    def _(c, e):
        setter(c, e, {view: 1})
        yield
        ens_set(c, e, {view: val})
for t in ('MEnt', 'MV', 'ME', 'MF'):
    mk_flag(t + '_Flag_OnParBoundary', 'PB', 1)
    mk_flag(t + '_Unflag_OnParBoundary', 'PB', 0)
mk_flag('MEnt_Set_Volatile', 'VOLA', 1)
mk_flag('MEnt_Set_DelFlag', 'DELD', 1)
mk_flag('MEnt_Rem_DelFlag', 'DELD', 0)

@contract('MEnt_Dim', **kw('MEnt_Dim'))
def _(c, e):
    c.req('entity', e > 0)
    yield
    ranges(c, c.pre, e, 'ODIM', 'DELD')
    c.ens('value', c.res == z3.If(c.pre.DELD(e) != 0, -1, c.pre.ODIM(e)))

@contract('MEnt_Set_Dim', **kw('MEnt_Set_Dim'))
def _(c, e, d):
    c.req('range', z3.And(d >= -1, d < 8))
    setter(c, e, {'ODIM': 1, 'DELD': 1})
    yield
    ens_set(c, e, {'ODIM': z3.If(d == -1, c.pre.ODIM(e), d), 'DELD': z3.If(d == -1, 1, c.pre.DELD(e))})

@contract('MEnt_Set_Mesh', **kw('MEnt_Set_Mesh'))
def _(c, e, m):
    setter(c, e, {'MESHV': 1})
    yield
    ens_set(c, e, {'MESHV': m})

@contract('MEnt_Init_CmnData', **kw('MEnt_Init_CmnData'))
def _(c, e):
    setter(c, e, dict.fromkeys(FIELDS))
    yield
    ens_set(c, e, {'MESHV': 0, 'AIL': 0, 'DELD': 0, 'VOLA': 0, 'ODIM': 4, 'IDV': 0, 'RT': 5, 'GD': 4, 'GI': 0, 'MARK': 0,
                   'PT': 0, 'PB': 0, 'MP': 0, 'GID': 0})

@contract('MESH_Flag_EntLists_As_Unsorted')
def _(c, m):
    c.req('mesh', m > 0)
    c.mod('LIDSORT', m)
    yield
    c.ens('flag', c.post.LIDSORT(m) == 0)

for n in names('Set_ID'):
    @contract(n, **kw(n))
    def _(c, e, x):
        c.req('range', z3.And(x >= 0, x < RANGE['IDV']))
        setter(c, e, {'IDV': 1})
        s = c.pre
        c.mod('LIDSORT', s.MESHV(e))
        yield
        t = c.post
        ens_set(c, e, {'IDV': x})
        m = s.MESHV(e)
        # renumbering an entity that already had an ID makes its mesh stop relying on ID order
        c.ens('unsorted', z3.Implies(z3.And(s.IDV(e) != 0, m != 0), t.LIDSORT(m) == 0))
        c.ens('still-sorted', z3.Implies(z3.Or(s.IDV(e) == 0, m == 0), t.LIDSORT(m) == s.LIDSORT(m)))

# markers: marker k (1..32) is one bit; the others stay
def mkbit(c, e, k):
    return 1 << (k - 1)

@contract('MEnt_IsMarked', **kw('MEnt_IsMarked'))
def _(c, e, k):
    c.req('marker', z3.And(k >= 1, k <= 32))
    c.req('entity', e > 0)
    yield
    if impl(c):
        c.ens('value', c.res == (c.pre.MARK(e) & (1 << (k - 1))))

for n, on in (('MEnt_Mark', True), ('MEnt_Unmark', False)):
    @contract(n, **kw(n))
    def _(c, e, k, on=on):
        c.req('marker', z3.And(k >= 1, k <= 32))
        setter(c, e, {'MARK': 1})
        yield
        if impl(c):
            bit = z3.BitVecVal(1, 32) << (k - 1)
            ens_set(c, e, {'MARK': (c.pre.MARK(e) | bit) if on else (c.pre.MARK(e) & ~bit)})
