"""Contracts for src/util/List.c.

Abstract view of a list l:  LEN(l), ELT(l,i) for 0<=i<LEN(l), the raw size NTOT(l) (entries + blanked slots)
and POS(l,x) = number of live entries stored before raw position x (what an iteration index means).
In List.c the views are functions of the representation; everywhere else they are ghost state."""
from verify import *
import sym

REG.view('LEN', 1, nonneg=True)
REG.view('NTOT', 1, nonneg=True)
REG.view('ELT', 2, isptr=True)
REG.view('POS', 2)
REG.view('SRTP', 2)     # ghost: where the entries of a list came from in its last sort, and where they went
REG.view('SRTQ', 2)

MAXL = 2 ** 25

def l_nentdat(s, l): return s.fld(l, 0, 'i32')
def l_rd(s, l): return s.fld(l, 8, 'ptr')
def l_ent(s, l): return s.fld(l, 16, 'ptr')
def l_nent(s, l): return l_nentdat(s, l) / 32
def l_p(s, l): return l_nentdat(s, l) % 32
def l_nrem(s, l): return z3.If(l_rd(s, l) == 0, 0, s.elem(l_rd(s, l), 0, 'i32'))
def l_rem1(s, l): return z3.If(l_rd(s, l) == 0, -1, s.elem(l_rd(s, l), 1, 'i32'))
def l_raw(s, l): return s.arr(l_ent(s, l), 'ptr')
def l_ntot(s, l): return l_nent(s, l) + l_nrem(s, l)
def l_elt(s, l, i): return l_raw(s, l)[SEL(l_raw(s, l), i)]
def l_pos(s, l, x): return CNT(l_raw(s, l), x)

CONCRETE = {'LEN': l_nent, 'NTOT': l_ntot, 'ELT': l_elt, 'POS': l_pos}

def impl(c):
    return 'LEN' in c.ex.layer

def WF(c, s, l):
    """representation invariant (concrete) / is-a-list (ghost)"""
    if not impl(c):
        return z3.And(iv(l) > 0, s.LEN(l) >= 0, s.LEN(l) <= s.NTOT(l))
    l = iv(l)
    k = z3.Int('k')
    raw = l_raw(s, l)
    nt = l_ntot(s, l)
    p = l_p(s, l)
    return z3.And(l > 0, l_ent(s, l) > 0, l_nentdat(s, l) >= 0, l_nent(s, l) >= 0, l_nent(s, l) < 2 * MAXL,
                  p <= 27, nt < 4 * MAXL,
                  z3.Implies(l_rd(s, l) != 0, z3.And(l_nrem(s, l) > 0, s.CAP(l_rd(s, l)) >= 8)),
                  nt <= POW2(p) - 1, s.CAP(l_ent(s, l)) >= (POW2(p) - 1) * 8,
                  CNT(raw, nt) == l_nent(s, l),
                  # rem1 is a lower bound of the first blank slot
                  z3.Implies(l_nrem(s, l) > 0, z3.And(l_rem1(s, l) >= 0, l_rem1(s, l) <= nt, CNT(raw, l_rem1(s, l)) == l_rem1(s, l))))

def lists(c, *ls):
    """declare list arguments: well formed before; separation between different lists"""
    for l in ls:
        c.req('wf', WF(c, c.pre, l))
    if impl(c):
        for i, a in enumerate(ls):
            for b in ls[i + 1:]:
                c.assume(l_ent(c.pre, a) != l_ent(c.pre, b), 'two different lists never share an entry array')
                c.assume(z3.Or(l_rd(c.pre, a) == 0, l_rd(c.pre, a) != l_rd(c.pre, b)), 'two different lists never share a removal record')

def modlist(c, l):
    if impl(c):
        c.owns(l, l_ent(c.pre, l), l_rd(c.pre, l))
        c.mod(('G', 'CAP'), l_ent(c.pre, l))
        c.allowall = True
    else:
        for v in ('LEN', 'NTOT', 'ELT', 'POS'):
            c.mod(v, l)

def live(c, s, l, i):
    """0<=i<LEN"""
    g = z3.And(i >= 0, i < s.LEN(l))
    if impl(c):
        g = z3.And(g, i < CNT(l_raw(s, l), l_ntot(s, l)))
    return g

def elts(c, s, l, f):
    """forall live i: f(i, ELT(s,l,i))"""
    if impl(c):
        return c.forall(1, lambda i: z3.Implies(live(c, s, l, i), f(i, s.ELT(l, i))))
    return c.forall(1, lambda i: z3.Implies(live(c, s, l, i), f(i, s.ELT(l, i))), lambda i: s.ELT(l, i))

def keepwf(c, l):
    c.ens('wf', WF(c, c.post, l))

def unchanged(c, l):
    pass

def room(c, l):
    if impl(c):
        c.req('room', c.pre.NTOT(l) < MAXL)
    else:
        c.assume(c.pre.NTOT(l) < MAXL, 'lists stay below 2^25 entries')

# hint: nothing equal to x among the raw entries before a loop counter
def scan_hint(l, pred):
    def h(L):
        if 'LEN' not in L.ex.layer:
            return {}
        out = {}
        raw = l_raw(L.s, l)
        for n, i in L.ints.items():
            k = z3.Int('k')
            out[('scan', n)] = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < iv(i)), pred(raw[k])), patterns=[raw[k]])
        return out
    return h

def scan_from_hint(l, pred, start):
    def h(L):
        out = {}
        raw = l_raw(L.s, l)
        for n, i in L.ints.items():
            k = z3.Int('k')
            out[('scanf', n)] = z3.ForAll([k], z3.Implies(z3.And(start <= k, k < iv(i)), pred(raw[k])), patterns=[raw[k]])
        return out
    return h

def cnt_hint(l):
    """counters that follow the number of live entries seen so far"""
    def h(L):
        if 'LEN' not in L.ex.layer:
            return {}
        out = {}
        raw = l_raw(L.s, l)
        for n, i in L.ints.items():
            for m, j in L.ints.items():
                if n != m:
                    for d in (0, -1):
                        out[('cnt', n, m, d)] = z3.And(iv(j) >= 0, iv(i) == CNT(raw, iv(j)) + d)
        return out
    return h

def at_index(c, l, i):
    if impl(c) and c.verifying:
        raw = l_raw(c.pre, l)
        c.term(CNT(raw, i), CNT(raw, i + 1), SEL(raw, i))

@contract('List_New', bounds=True)
def _(c, inisize):
    c.req('size', z3.And(inisize >= 0, inisize < MAXL))
    o = c.new()
    if not impl(c):
        for v in ('LEN', 'NTOT', 'ELT', 'POS'):
            c.mod(v, o)
    c.inv(lambda L: {('p', n): z3.And(iv(i) >= 0, iv(i) <= 26, z3.Or(iv(i) == 0, POW2(iv(i) - 1) <= inisize)) for n, i in L.ints.items()})
    yield
    r = c.res
    c.ens('new', z3.And(r >= c.pre.next, r > 0))
    c.ens('wf', WF(c, c.post, r))
    c.ens('empty', c.post.LEN(r) == 0)
    c.ens('empty-raw', c.post.NTOT(r) == 0)
    c.ens('pos0', c.post.POS(r, 0) == 0)
    if impl(c):
        c.ens('capacity', c.post.CAP(l_ent(c.post, r)) >= 8 * inisize)

@contract('List_Delete')
def _(c, l):
    c.req('nonnull', l > 0)
    if not impl(c):
        for v in ('LEN', 'NTOT', 'ELT', 'POS'):
            c.mod(v, l)
    yield

@contract('List_Num_Entries', bounds=True)
def _(c, l):
    lists(c, l)
    yield
    c.ens('len', c.res == c.pre.LEN(l))

@contract('List_Size_Raw', bounds=True)
def _(c, l):
    lists(c, l)
    yield
    c.ens('ntot', c.res == c.pre.NTOT(l))

@contract('List_Entry', bounds=True)
def _(c, l, i):
    lists(c, l)
    c.req('index', i >= 0)
    c.inv(cnt_hint(l))
    at_index(c, l, i)
    yield
    s = c.pre
    if impl(c):
        c.ens('beyond', z3.Implies(i >= s.LEN(l), c.res == 0))
        c.ens('entry', z3.Implies(live(c, s, l, i), c.res == s.ELT(l, i)))
    else:
        c.ens('entry', c.res == z3.If(i < s.LEN(l), s.ELT(l, i), 0))
    c.ens('nonnull', z3.Implies(i < s.LEN(l), c.res != 0))

@contract('List_Entry_Raw', bounds=True)
def _(c, l, i):
    lists(c, l)
    c.req('index', i >= 0)
    yield
    s = c.pre
    if impl(c):
        c.ens('raw', c.res == z3.If(i < s.NTOT(l), l_raw(s, l)[i], 0))
        c.ens('raw2', z3.Implies(z3.And(i < s.NTOT(l), c.res != 0), z3.And(c.res == s.ELT(l, s.POS(l, i)), s.POS(l, i) < s.LEN(l))))
        c.ens('raw3', z3.Implies(i < s.NTOT(l), s.POS(l, i + 1) == s.POS(l, i) + z3.If(c.res != 0, 1, 0)))
    else:
        c.ens('raw', z3.Implies(i >= s.NTOT(l), c.res == 0))
        c.ens('raw2', z3.Implies(z3.And(i < s.NTOT(l), c.res != 0), c.res == s.ELT(l, s.POS(l, i))))
        c.ens('raw3', z3.Implies(i < s.NTOT(l), s.POS(l, i + 1) == s.POS(l, i) + z3.If(c.res != 0, 1, 0)))
        c.ens('raw4', z3.Implies(z3.And(i < s.NTOT(l), c.res != 0), z3.And(0 <= s.POS(l, i), s.POS(l, i) < s.LEN(l))))

@contract('List_Next_Entry', bounds=True)
def _(c, l, ip):
    lists(c, l)
    s = c.pre
    x = s.at(ip, 0, 'i32')
    if c.verifying:
        c.req('ip', iv(ip) > 0)
        c.assume(z3.And(iv(ip) != l_rd(s, l), s.CAP(ip) >= 4), 'the iteration index is the caller\'s variable, not part of the list')
    c.req('idx', z3.And(x >= 0, x <= s.NTOT(l)))
    c.mod(('E', 'i32'), ip.obj if isinstance(ip, P) else ip)
    c.cell(ip if not isinstance(ip, P) else ip.obj)
    if impl(c):
        c.inv(scan_from_hint(l, lambda v: v == 0, x))
        def h(L):
            return {('cf', n): z3.And(x <= iv(i), CNT(l_raw(L.s, l), iv(i)) == CNT(l_raw(L.s, l), x)) for n, i in L.ints.items()}
        c.inv(h)
    yield
    t = c.post
    y = t.at(ip, 0, 'i32')
    n = s.POS(l, x)
    more = n < s.LEN(l)
    c.ens('pos', z3.And(n >= 0, n <= s.LEN(l)))
    c.ens('end', z3.Implies(z3.Not(more), z3.And(c.res == 0)))
    c.ens('end-idx', z3.Implies(c.res == 0, z3.And(y >= x, y <= s.NTOT(l), s.POS(l, y) >= n)))
    c.ens('next', z3.Implies(more, z3.And(c.res != 0, c.res == s.ELT(l, n))))
    c.ens('advance', z3.Implies(more, z3.And(y > x, y <= s.NTOT(l), s.POS(l, y) == n + 1)))

@contract('List_Contains', bounds=True)
def _(c, l, e):
    lists(c, l)
    c.req('entry', e > 0)
    c.inv(scan_hint(l, lambda v: v != e))
    yield
    s = c.pre
    c.ens('bool', z3.Or(c.res == 0, c.res == 1))
    if impl(c):
        raw = l_raw(s, l)
        c.ens('no', z3.Implies(c.res == 0, elts(c, s, l, lambda i, v: v != e)))
        c.ens('yes', z3.Implies(c.res != 0, z3.Exists([z3.Int('j')], z3.And(0 <= z3.Int('j'), z3.Int('j') < s.NTOT(l), raw[z3.Int('j')] == e))))
    else:
        c.ens('no', z3.Implies(c.res == 0, elts(c, s, l, lambda i, v: v != e)))
        w = c.ex.fresh('wit')
        c.ens('yes', z3.Implies(c.res != 0, z3.And(0 <= w, w < s.LEN(l), s.ELT(l, w) == e)))

@contract('List_Locate', bounds=True)
def _(c, l, e):
    lists(c, l)
    c.req('entry', e > 0)
    c.inv(scan_hint(l, lambda v: v != e))
    c.inv(cnt_hint(l))
    yield
    s = c.pre
    c.ens('range', z3.And(c.res >= -1, c.res < s.LEN(l)))
    c.ens('found', z3.Implies(c.res >= 0, s.ELT(l, c.res) == e))
    c.ens('first', elts(c, s, l, lambda i, v: z3.Implies(z3.Or(c.res < 0, i < c.res), v != e)))

def appended(c, l, e, cond=True):
    s, t = c.pre, c.post
    n = s.LEN(l)
    cond = iv(cond)
    c.ens('len', z3.Implies(cond, t.LEN(l) == n + 1))
    c.ens('ntot', z3.Implies(cond, t.NTOT(l) == s.NTOT(l) + 1))
    c.ens('elt', z3.Implies(cond, elts(c, t, l, lambda i, v: v == z3.If(i == n, e, s.ELT(l, i)))))
    c.ens('pos', z3.Implies(cond, c.forall(1, lambda x: z3.Implies(z3.And(0 <= x, x <= s.NTOT(l)), t.POS(l, x) == s.POS(l, x)), lambda x: t.POS(l, x))))
    if not impl(c):
        c.ens('elt-new', z3.Implies(cond, t.ELT(l, n) == e))
        c.ens('elt-old', z3.Implies(cond, c.forall(1, lambda i: z3.Implies(z3.And(0 <= i, i < n), t.ELT(l, i) == s.ELT(l, i)), lambda i: s.ELT(l, i))))

@contract('List_Add', bounds=True)
def _(c, l, e):
    lists(c, l)
    c.req('entry', e > 0)
    room(c, l)
    modlist(c, l)
    yield
    c.ens('result', c.res == l)
    keepwf(c, l)
    appended(c, l, e)

def same_list(c, l, cond):
    s, t = c.pre, c.post
    c.ens('same-len', z3.Implies(cond, z3.And(t.LEN(l) == s.LEN(l), t.NTOT(l) == s.NTOT(l))))
    if impl(c):
        c.ens('same-elt', z3.Implies(cond, c.forall(1, lambda k: z3.Implies(z3.And(0 <= k, k < s.NTOT(l)), l_raw(t, l)[k] == l_raw(s, l)[k]))))
    else:
        c.ens('same-elt', z3.Implies(cond, z3.And(t.row('ELT', l) == s.row('ELT', l), t.row('POS', l) == s.row('POS', l))))

@contract('List_ChknAdd', bounds=True)
def _(c, l, e):
    lists(c, l)
    c.req('entry', e > 0)
    room(c, l)
    modlist(c, l)
    c.inv(scan_hint(l, lambda v: v != e))
    yield
    s, t = c.pre, c.post
    c.ens('result', c.res == l)
    keepwf(c, l)
    grown = t.LEN(l) != s.LEN(l)
    appended(c, l, e, grown)
    c.ens('absent', z3.Implies(grown, elts(c, s, l, lambda i, v: v != e)))
    same_list(c, l, z3.Not(grown))
    if impl(c):
        c.ens('present', z3.Implies(z3.Not(grown), z3.Exists([z3.Int('j')], z3.And(0 <= z3.Int('j'), z3.Int('j') < s.NTOT(l), l_raw(s, l)[z3.Int('j')] == e))))
    else:
        w = c.ex.fresh('wit')
        c.ens('present', z3.Implies(z3.Not(grown), z3.And(0 <= w, w < s.LEN(l), s.ELT(l, w) == e)))

def inserted(c, l, e, i):
    s, t = c.pre, c.post
    c.ens('len', t.LEN(l) == s.LEN(l) + 1)
    c.ens('elt', elts(c, t, l, lambda k, v: v == z3.If(k < i, s.ELT(l, k), z3.If(k == i, e, s.ELT(l, k - 1)))))
    if not impl(c):
        c.ens('elt-new', t.ELT(l, i) == e)

@contract('List_Inserti', bounds=True)
def _(c, l, e, i):
    lists(c, l)
    c.req('entry', e > 0)
    room(c, l)
    c.req('index', z3.And(i >= 0, i <= c.pre.LEN(l)))
    modlist(c, l)
    c.inv(cnt_hint(l))
    at_index(c, l, i)
    yield
    c.ens('result', c.res == l)
    keepwf(c, l)
    inserted(c, l, e, i)

@contract('List_Insert', bounds=True)
def _(c, l, e, b):
    lists(c, l)
    c.req('entry', e > 0)
    room(c, l)
    modlist(c, l)
    c.inv(scan_hint(l, lambda v: v != b))
    c.inv(cnt_hint(l))
    yield
    s, t = c.pre, c.post
    c.ens('result', c.res == l)
    keepwf(c, l)
    n = s.LEN(l)
    grown = t.LEN(l) != n
    c.ens('append', z3.Implies(b == 0, z3.And(t.LEN(l) == n + 1, elts(c, t, l, lambda k, v: v == z3.If(k == n, e, s.ELT(l, k))))))
    # b4entry not in the list: nothing changes
    c.ens('absent', z3.Implies(z3.And(b != 0, z3.Not(grown)), elts(c, s, l, lambda k, v: v != b)))
    # present: inserted exactly before the first occurrence
    c.ens('before', z3.Implies(z3.And(b != 0, grown), z3.And(t.LEN(l) == n + 1,
          elts(c, t, l, lambda k, v: z3.Or(v == e, z3.Implies(v == b, z3.BoolVal(True)))),
          elts(c, t, l, lambda k, v: z3.Implies(z3.And(k >= 1, v == s.ELT(l, k - 1), v == b, k - 1 >= 0,
               z3.BoolVal(False)), z3.BoolVal(True))))))
    if impl(c):
        j = z3.Int('j')
        raw = l_raw(s, l)
        first = lambda q: z3.And(0 <= q, q < s.LEN(l), s.ELT(l, q) == b)
        c.ens('before2', z3.Implies(z3.And(b != 0, grown), z3.Exists([j], z3.And(
            0 <= j, j < s.NTOT(l), raw[j] == b,
            elts(c, t, l, lambda k, v: v == z3.If(k < CNT(raw, j), s.ELT(l, k), z3.If(k == CNT(raw, j), e, s.ELT(l, k - 1)))),
            c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < j), raw[q] != b))))))
    else:
        w = c.ex.fresh('wit')
        c.ens('before2', z3.Implies(z3.And(b != 0, grown), z3.And(0 <= w, w < n, s.ELT(l, w) == b,
              elts(c, t, l, lambda k, v: v == z3.If(k < w, s.ELT(l, k), z3.If(k == w, e, s.ELT(l, k - 1)))),
              elts(c, s, l, lambda k, v: z3.Implies(k < w, v != b)))))

def removed(c, l, i, cond):
    """entry number i (a term, pre-state numbering) is gone, the others keep their order"""
    s, t = c.pre, c.post
    cond = iv(cond)
    c.ens('len', z3.Implies(cond, t.LEN(l) == s.LEN(l) - 1))
    c.ens('ntot', t.NTOT(l) == s.NTOT(l))
    c.ens('elt', z3.Implies(cond, elts(c, t, l, lambda k, v: v == z3.If(k < i, s.ELT(l, k), s.ELT(l, k + 1)))))
    c.ens('pos', z3.Implies(cond, c.forall(1, lambda x: z3.Implies(z3.And(0 <= x, x <= s.NTOT(l)),
          t.POS(l, x) == s.POS(l, x) - z3.If(s.POS(l, x) > i, 1, 0)), lambda x: t.POS(l, x))))

@contract('List_Rem', bounds=True)
def _(c, l, e):
    lists(c, l)
    c.req('entry', e > 0)
    modlist(c, l)
    c.inv(scan_hint(l, lambda v: v != e))
    yield
    s, t = c.pre, c.post
    c.ens('bool', z3.Or(c.res == 0, c.res == 1))
    keepwf(c, l)
    c.ens('not-found', z3.Implies(c.res == 0, elts(c, s, l, lambda k, v: v != e)))
    same_list(c, l, c.res == 0)
    rem_first(c, l, e, c.res == 1)

def rem_first(c, l, e, cond):
    s, t = c.pre, c.post
    if impl(c):
        # the first raw slot holding e has been blanked; every other slot is untouched
        j = z3.Int('j')
        raw, rw2 = l_raw(s, l), l_raw(t, l)
        c.ens('slot', z3.Implies(cond, z3.Exists([j], z3.And(0 <= j, j < s.NTOT(l), raw[j] == e, rw2[j] == 0,
              c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < j), raw[q] != e)),
              c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < s.NTOT(l), q != j), rw2[q] == raw[q])),
              elts(c, t, l, lambda k, v: v == z3.If(k < CNT(raw, j), s.ELT(l, k), s.ELT(l, k + 1))),
              c.forall(1, lambda x: z3.Implies(z3.And(0 <= x, x <= s.NTOT(l)), t.POS(l, x) == s.POS(l, x) - z3.If(s.POS(l, x) > CNT(raw, j), 1, 0)))))))
        c.ens('len', z3.Implies(cond, t.LEN(l) == s.LEN(l) - 1))
        c.ens('ntot', t.NTOT(l) == s.NTOT(l))
    else:
        w = c.ex.fresh('wit')
        c.ens('pos-of', z3.Implies(cond, z3.And(0 <= w, w < s.LEN(l), s.ELT(l, w) == e, elts(c, s, l, lambda k, v: z3.Implies(k < w, v != e)))))
        removed(c, l, w, cond)

@contract('List_Remi', bounds=True)
def _(c, l, i):
    lists(c, l)
    c.req('index', i >= 0)
    modlist(c, l)
    c.inv(cnt_hint(l))
    at_index(c, l, i)
    yield
    s, t = c.pre, c.post
    c.ens('result', c.res == z3.If(i < s.LEN(l), 1, 0))
    keepwf(c, l)
    same_list(c, l, i >= s.LEN(l))
    removed(c, l, i, i < s.LEN(l))

@contract('List_Remi_Raw', bounds=True)
def _(c, l, i):
    lists(c, l)
    c.req('index', i >= 0)
    modlist(c, l)
    yield
    s, t = c.pre, c.post
    keepwf(c, l)
    c.ens('result', c.res == z3.If(i < s.NTOT(l), 1, 0))
    c.ens('ntot', t.NTOT(l) == s.NTOT(l))
    if impl(c):
        raw = l_raw(s, l)
        c.ens('slot', c.forall(1, lambda k: z3.Implies(z3.And(0 <= k, k < s.NTOT(l)), l_raw(t, l)[k] == z3.If(k == i, 0, raw[k]))))
        c.term(raw[i], CNT(raw, i), CNT(raw, i + 1))
    isl = z3.And(i < s.NTOT(l), s.POS(l, i + 1) == s.POS(l, i) + 1)
    same_list(c, l, z3.Not(isl))
    removed(c, l, s.POS(l, i), isl)

@contract('List_Replace', bounds=True)
def _(c, l, e, n):
    lists(c, l)
    c.req('entries', z3.And(e > 0, n > 0))
    modlist(c, l)
    c.inv(scan_hint(l, lambda v: v != e))
    yield
    s, t = c.pre, c.post
    c.ens('bool', z3.Or(c.res == 0, c.res == 1))
    keepwf(c, l)
    c.ens('len', z3.And(t.LEN(l) == s.LEN(l), t.NTOT(l) == s.NTOT(l)))
    c.ens('not-found', z3.Implies(c.res == 0, elts(c, s, l, lambda k, v: v != e)))
    same_list(c, l, c.res == 0)
    if impl(c):
        j = z3.Int('j')
        raw, rw2 = l_raw(s, l), l_raw(t, l)
        c.ens('slot', z3.Implies(c.res == 1, z3.Exists([j], z3.And(0 <= j, j < s.NTOT(l), raw[j] == e, rw2[j] == n,
              c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < j), raw[q] != e)),
              elts(c, t, l, lambda k, v: v == z3.If(k == CNT(raw, j), n, s.ELT(l, k)))))))
        c.ens('pos', c.forall(1, lambda x: z3.Implies(z3.And(0 <= x, x <= s.NTOT(l)), t.POS(l, x) == s.POS(l, x))))
    else:
        w = c.ex.fresh('wit')
        c.ens('slot', z3.Implies(c.res == 1, z3.And(0 <= w, w < s.LEN(l), s.ELT(l, w) == e, t.ELT(l, w) == n,
              elts(c, s, l, lambda k, v: z3.Implies(k < w, v != e)),
              elts(c, t, l, lambda k, v: v == z3.If(k == w, n, s.ELT(l, k))))))
        c.ens('pos', c.forall(1, lambda x: t.POS(l, x) == s.POS(l, x), lambda x: t.POS(l, x)))

@contract('List_Replacei', bounds=True)
def _(c, l, i, n):
    lists(c, l)
    c.req('index', z3.And(i >= 0, i < c.pre.LEN(l)))
    c.req('entry', n > 0)
    modlist(c, l)
    c.inv(cnt_hint(l))
    at_index(c, l, i)
    yield
    s, t = c.pre, c.post
    keepwf(c, l)
    c.ens('result', c.res == 1)
    c.ens('len', z3.And(t.LEN(l) == s.LEN(l), t.NTOT(l) == s.NTOT(l)))
    c.ens('elt', elts(c, t, l, lambda k, v: v == z3.If(k == i, n, s.ELT(l, k))))
    c.ens('pos', c.forall(1, lambda x: z3.Implies(z3.And(0 <= x, x <= s.NTOT(l)), t.POS(l, x) == s.POS(l, x)), lambda x: t.POS(l, x)))
    if not impl(c):
        c.ens('elt-new', t.ELT(l, i) == n)

@contract('List_Copy', bounds=True)
def _(c, l):
    lists(c, l)
    o = c.new()
    if not impl(c):
        for v in ('LEN', 'NTOT', 'ELT', 'POS'):
            c.mod(v, o)
    yield
    s, t = c.pre, c.post
    r = c.res
    c.ens('new', z3.And(r >= s.next, r > 0))
    c.ens('wf', WF(c, t, r))
    c.ens('len', t.LEN(r) == s.LEN(l))
    c.ens('ntot', t.NTOT(r) == s.NTOT(l))
    if impl(c):
        c.ens('own', z3.And(l_ent(t, r) >= s.next, z3.Or(l_rd(t, r) == 0, l_rd(t, r) >= s.next)))
        c.ens('elt', elts(c, t, r, lambda k, v: v == s.ELT(l, k)))
    else:
        c.ens('elt', elts(c, t, r, lambda k, v: v == s.ELT(l, k)))
        c.ens('elt2', elts(c, s, l, lambda k, v: v == t.ELT(r, k)))
    c.ens('pos', c.forall(1, lambda x: z3.Implies(z3.And(0 <= x, x <= s.NTOT(l)), t.POS(r, x) == s.POS(l, x)), lambda x: t.POS(r, x)))

@contract('List_Cat', bounds=True)
def _(c, d, s_):
    lists(c, d, s_)
    c.req('different', d != s_)
    c.req('room', c.pre.NTOT(d) + c.pre.NTOT(s_) < MAXL)
    modlist(c, d)
    c.inv(lambda L: {('p', n): z3.And(iv(i) >= 0, iv(i) <= 27) for n, i in L.ints.items()})
    c.inv(lambda L: {('p2', n): z3.Or(iv(i) == iv(L.entry_ints[n]), POW2(iv(i) - 1) <= c.pre.NTOT(d) + c.pre.NTOT(s_)) for n, i in L.ints.items()})
    yield
    s, t = c.pre, c.post
    c.ens('result', c.res == d)
    keepwf(c, d)
    nd, ns = s.LEN(d), s.LEN(s_)
    c.ens('len', t.LEN(d) == nd + ns)
    c.ens('elt', elts(c, t, d, lambda k, v: v == z3.If(k < nd, s.ELT(d, k), s.ELT(s_, k - nd))))
    if not impl(c):
        c.ens('elt-src', elts(c, s, s_, lambda k, v: v == t.ELT(d, nd + k)))

KL = z3.Int('KL')    # an arbitrary position: what is proved for it holds for every position

@contract('List_Compress', bounds=True, generic=False, retry='cvc5', rto={'from': 30}, hto=0.4, initto=0.6)
def _(c, l):
    lists(c, l)
    modlist(c, l)
    if impl(c):
        c.lemma(*sym.AX_CNTFULL)
        c.inv(compress_hint(c, l))
        raw = l_raw(c.pre, l)
        c.term(SEL(raw, KL), raw[KL], CNT(raw, KL), CNT(raw, l_ntot(c.pre, l)))
    yield
    s, t = c.pre, c.post
    c.ens('result', c.res == l)
    keepwf(c, l)
    c.ens('len', t.LEN(l) == s.LEN(l))
    c.ens('ntot', t.NTOT(l) == s.LEN(l))
    if impl(c) and c.verifying:
        raw, rw2 = l_raw(s, l), l_raw(t, l)
        n = s.LEN(l)
        c.ens('elt', z3.Implies(z3.And(0 <= KL, KL < n), rw2[KL] == raw[SEL(raw, KL)]))
        c.ens('compact', z3.And(CNT(rw2, n) == n))
        return
    c.ens('elt', elts(c, t, l, lambda k, v: v == s.ELT(l, k)))
    if not impl(c):
        c.ens('elt2', elts(c, s, l, lambda k, v: v == t.ELT(l, k)))

def compress_hint(c, l):
    """the entries from kb to the end are the last ones of the list in order, those before kb are untouched"""
    s0 = c.pre
    raw0 = l_raw(s0, l)
    nt0, ne0 = l_ntot(s0, l), l_nent(s0, l)
    k = z3.Int('k')
    def h(L):
        out = {}
        raw = l_raw(L.s, l)
        out['same-arr'] = l_ent(L.s, l) == l_ent(s0, l)
        E = {n: iv(e) for n, e in L.entry_ints.items()}
        for n, i in L.ints.items():
            i = iv(i)
            out['flag', n] = z3.Or(i == 0, i == 1)
            if L.innermost:
                out['rng', n] = z3.And(-1 <= i, i <= E[n])
                out['live', n] = z3.And(CNT(raw0, i + 1) == CNT(raw0, E[n] + 1) - (E[n] - i), z3.ForAll([k], z3.Implies(z3.And(i < k, k <= E[n]), raw[k] != 0), patterns=[raw[k]]))
                out['sel', n] = z3.Implies(z3.And(CNT(raw0, i + 1) <= KL, KL < CNT(raw0, E[n] + 1)), SEL(raw0, KL) == i + 1 + KL - CNT(raw0, i + 1))
                out['blank', n] = z3.And(CNT(raw0, i + 1) == CNT(raw0, E[n] + 1), z3.ForAll([k], z3.Implies(z3.And(i < k, k <= E[n]), raw[k] == 0), patterns=[raw[k]]))
            else:
                out['rng', n] = z3.And(0 <= i, i <= nt0)
                out['pre', n] = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i), raw[k] == raw0[k]), patterns=[raw[k]])
            for m, e in L.ints.items():
                if n == m:
                    continue
                e = iv(e)
                if L.innermost:
                    out['suc', n, m] = z3.Or(z3.And(i == E[n], e == E[m]), i + 1 == e)
                    out['found', n, m] = z3.Implies(e != 0, z3.And(i >= 0, raw[i] == 0))
                else:
                    out['le', n, m] = i <= e
                    out['liveto', n, m] = z3.ForAll([k], z3.Implies(z3.And(i <= k, k < e), raw[k] != 0), patterns=[raw[k]])
                    out['count', n, m] = e - i == ne0 - CNT(raw0, i)
                    out['from', n, m] = z3.Implies(z3.And(ne0 - (e - i) <= KL, KL < ne0), raw[e - ne0 + KL] == raw0[SEL(raw0, KL)])
        return out
    return h

@contract('List_Entries', bounds=True)
def _(c, l):
    c.req('nonnull', l > 0)
    yield
    if impl(c):
        c.ens('array', c.res == l_ent(c.pre, l))

# ---- removal by key from a list sorted by that key
KEYFNS = {'compareID': 'IDV', 'compareGlobalID': 'GID',
          'MV_ID': 'IDV', 'ME_ID': 'IDV', 'MF_ID': 'IDV', 'MR_ID': 'IDV', 'MEnt_ID': 'IDV',
          'MV_GlobalID': 'GID', 'ME_GlobalID': 'GID', 'MF_GlobalID': 'GID', 'MR_GlobalID': 'GID', 'MEnt_GlobalID': 'GID'}

def key_of(c, fn):
    if c.verifying and impl(c):
        def cb(ex, st, vals):
            return KEYF(iv(vals[0].obj))
        c.callback(fn, cb)
        return lambda x: KEYF(iv(x))
    for t, v in getattr(c.ex, 'fnkey', []):
        if z3.is_expr(iv(fn)) and iv(fn).eq(t):
            return lambda x: getattr(c.pre, v)(x)
    n = None
    for k, v in c.ex.fnids.items():
        if z3.is_int_value(z3.simplify(iv(fn))) and k == z3.simplify(iv(fn)).as_long():
            n = v
    c.req('key', n in KEYFNS)
    return (lambda x: getattr(c.pre, KEYFNS[n])(x)) if n in KEYFNS else (lambda x: KEYF(iv(x)))

def remsorted_hint(c, l, key, e):
    def h(L):
        out = {}
        raw = l_raw(L.s, l)
        k = z3.Int('k')
        nt = l_ntot(c.pre, l)
        def iskey(n):
            x = iv(L.entry_ints[n])
            return z3.is_app(x) and x.decl().name() == 'KEYF'
        for n, i in L.ints.items():
            i = iv(i)
            if iskey(n):
                continue
            out[('live', n)] = z3.And(0 <= i, i < nt, raw[i] != 0)
            out[('rng', n)] = z3.And(0 <= i, i < nt)
            out[('pre', n)] = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= i), raw[k] == 0), patterns=[raw[k]])
            out[('post', n)] = z3.ForAll([k], z3.Implies(z3.And(i <= k, k < nt), raw[k] == 0), patterns=[raw[k]])
            ei = iv(L.entry_ints[n])
            out[('fwd', n)] = z3.And(ei <= i, z3.ForAll([k], z3.Implies(z3.And(ei <= k, k <= i), raw[k] == 0), patterns=[raw[k]]))
            out[('bwd', n)] = z3.And(i <= ei, z3.ForAll([k], z3.Implies(z3.And(i <= k, k < ei), raw[k] == 0), patterns=[raw[k]]))
            for m, j in L.ints.items():
                if m != n:
                    j = iv(j)
                    if iskey(m):
                        out[('key', n, m)] = j == key(raw[i])
                        continue
                    out[('le', n, m)] = i <= j
                    w = z3.Int('w0')
                    out[('win', n, m)] = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nt, raw[k] == e), z3.And(i <= k, k <= j)), patterns=[raw[k]])
        return out
    return h

@contract('List_RemSorted', bounds=True, initto=0.6, generic=False)
def _(c, l, e, fn):
    lists(c, l)
    c.req('entry', e > 0)
    key = key_of(c, fn)
    modlist(c, l)
    s = c.pre
    if impl(c):
        raw = l_raw(s, l)
        c.term(SEL(raw, 0), raw[SEL(raw, 0)])
        c.inv(remsorted_hint(c, l, key, e))
    yield
    t = c.post
    c.ens('bool', z3.Or(c.res == 0, c.res == 1))
    keepwf(c, l)
    same_list(c, l, c.res == 0)
    c.ens('len', z3.Implies(c.res == 1, t.LEN(l) == s.LEN(l) - 1))
    c.ens('ntot', t.NTOT(l) == s.NTOT(l))
    inc = c.forall(2, lambda a, b: z3.Implies(z3.And(0 <= a, a < b, b < s.NTOT(l), raw[a] != 0, raw[b] != 0), key(raw[a]) < key(raw[b])), lambda a, b: z3.MultiPattern(raw[a], raw[b])) if impl(c) else \
        c.forall(2, lambda a, b: z3.Implies(z3.And(0 <= a, a < b, b < s.LEN(l)), key(s.ELT(l, a)) < key(s.ELT(l, b))), lambda a, b: z3.MultiPattern(s.ELT(l, a), s.ELT(l, b)))
    if impl(c):
        j = z3.Int('j')
        rw2 = l_raw(t, l)
        c.ens('slot', z3.Implies(c.res == 1, z3.Exists([j], z3.And(0 <= j, j < s.NTOT(l), raw[j] != 0, key(raw[j]) == key(e), rw2[j] == 0,
              c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < s.NTOT(l), q != j), rw2[q] == raw[q])),
              elts(c, t, l, lambda k, v: v == z3.If(k < CNT(raw, j), s.ELT(l, k), s.ELT(l, k + 1))),
              c.forall(1, lambda x: z3.Implies(z3.And(0 <= x, x <= s.NTOT(l)), t.POS(l, x) == s.POS(l, x) - z3.If(s.POS(l, x) > CNT(raw, j), 1, 0)))))))
        c.ens('finds', z3.Implies(z3.And(c.res == 0, inc), c.forall(1, lambda q: z3.Implies(z3.And(0 <= q, q < s.NTOT(l)), raw[q] != e))))
    else:
        w = c.ex.fresh('wit')
        c.ens('key-of', z3.Implies(c.res == 1, z3.And(0 <= w, w < s.LEN(l), key(s.ELT(l, w)) == key(e))))
        removed(c, l, w, c.res == 1)
        c.ens('finds', z3.Implies(z3.And(c.res == 0, inc), elts(c, s, l, lambda k, v: v != e)))

def sorted_by(c, s, l, key, strict=False, pat=True):
    op = (lambda a, b: a < b) if strict else (lambda a, b: a <= b)
    if impl(c):
        raw = l_raw(s, l)
        return c.forall(2, lambda a, b: z3.Implies(z3.And(0 <= a, a < b, b < s.NTOT(l)), op(key(raw[a]), key(raw[b]))), lambda a, b: z3.MultiPattern(raw[a], raw[b]))
    return c.forall(2, lambda a, b: z3.Implies(z3.And(0 <= a, a < b, b < s.LEN(l)), op(key(s.ELT(l, a)), key(s.ELT(l, b)))), lambda a, b: z3.MultiPattern(s.ELT(l, a), s.ELT(l, b)))

@contract('List_Sort', bounds=True)
def _(c, l, num, size, fn):
    s = c.pre
    lists(c, l)
    c.req('element-size', size == 8)
    c.req('no-gaps', s.NTOT(l) == s.LEN(l))
    c.req('all', num == s.LEN(l))
    c.assume(s.CAP(l_ent(s, l)) >= 8 * s.LEN(l), 'well formed')  if impl(c) else None
    key = key_of(c, fn)
    modlist(c, l)
    if not impl(c):
        c.mod('SRTP', l)
        c.mod('SRTQ', l)
    if impl(c):
        c.lemma(*sym.AX_CNTFULL)
    yield
    t = c.post
    keepwf(c, l)
    c.ens('len', z3.And(t.LEN(l) == s.LEN(l), t.NTOT(l) == s.NTOT(l)))
    c.ens('sorted', sorted_by(c, t, l, key))
    n = s.LEN(l)
    if impl(c):
        rw, raw = l_raw(t, l), l_raw(s, l)
        p, q = getattr(c.ex, 'qs', (None, None))
        inr = lambda x: z3.And(0 <= x, x < n)
        c.ens('permutation', c.forall(1, lambda i: z3.Implies(inr(i), z3.And(inr(p[i]), q[p[i]] == i, rw[i] == raw[p[i]]))))
        c.ens('permutation2', c.forall(1, lambda i: z3.Implies(inr(i), z3.And(inr(q[i]), p[q[i]] == i, rw[q[i]] == raw[i]))))
    else:
        p, q = t.row('SRTP', l), t.row('SRTQ', l)
        inr = lambda x: z3.And(0 <= x, x < n)
        # the same facts, stated so that instantiation terminates
        c.ens('permutation', c.forall(1, lambda i: z3.Implies(inr(i), z3.And(inr(p[i]), t.ELT(l, i) == s.ELT(l, p[i]))), lambda i: [t.ELT(l, i), p[i]]))
        c.ens('permutation', c.forall(2, lambda i, j: z3.Implies(z3.And(inr(i), inr(j), i != j), p[i] != p[j]), lambda i, j: z3.MultiPattern(p[i], p[j])))
        c.ens('permutation2', c.forall(1, lambda i: z3.Implies(inr(i), z3.And(inr(q[i]), p[q[i]] == i, t.ELT(l, q[i]) == s.ELT(l, i))), lambda i: q[i]))

@contract('List_Search', bounds=True)
def _(c, l, kp, num, size, fn):
    s = c.pre
    lists(c, l)
    c.req('element-size', size == 8)
    c.req('no-gaps', s.NTOT(l) == s.LEN(l))
    c.req('all', num == s.LEN(l))
    if impl(c):
        c.req('key', z3.And(kp > 0, s.CAP(kp) >= 8))
        c.lemma(*sym.AX_CNTFULL)
    key = key_of(c, fn)
    yield
    x = key(s.at(kp, 0, 'ptr'))
    srt = sorted_by(c, s, l, key)
    c.ens('none', z3.Implies(z3.And(c.res == 0, srt), elts(c, s, l, lambda i, v: key(v) != x)))
    if impl(c):
        raw = l_raw(s, l)
        j = z3.Int('j')
        c.ens('found', z3.Implies(c.res != 0, z3.Exists([j], z3.And(0 <= j, j < s.NTOT(l), raw[j] == c.res, key(raw[j]) == x))))
    else:
        w = c.ex.fresh('w')
        c.ens('found', z3.Implies(c.res != 0, z3.And(0 <= w, w < s.LEN(l), s.ELT(l, w) == c.res, key(s.ELT(l, w)) == x)))
