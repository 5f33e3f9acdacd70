"""Reader for the textual LLVM IR that clang produces from /repo's C sources.

Only the part of the language that the sources need is read; anything else
raises Unsupported when (and only when) a verified function uses it."""
import re

class Unsupported(Exception):
    pass

INT = re.compile(r'i(\d+)$')
_tok = re.compile(r'"(?:[^"\\]|\\.)*"|[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)|c"(?:[^"\\]|\\.)*"|[-+]?\d+\.\d+(?:e[-+]?\d+)?|0x[0-9A-Fa-f]+|-?\d+|[a-zA-Z_][\w.]*|\.\.\.|[()\[\]{}<>,=*!#:]|\S')

def tokens(s):
    return _tok.findall(s)

class T:
    """types: ('i',w) ('ptr',) ('double',) ('float',) ('void',) ('arr',n,t) ('st',name) ('lit',(t..))"""

class Mod:
    def __init__(self, text):
        self.structs = {}
        self.globs = {}
        self.ftext = {}
        self.decls = set()
        self._fn = {}
        cur = None
        buf = []
        for ln in text.split('\n'):
            if cur is not None:
                if ln == '}':
                    self.ftext[cur] = buf
                    cur = None
                else:
                    buf.append(ln)
                continue
            if ln.startswith('define '):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
                cur = m.group(1).strip('"')
                buf = [ln]
            elif ln.startswith('%') and ' = type ' in ln:
                n, t = ln.split(' = type ', 1)
                self.structs[n] = t
            elif ln.startswith('@'):
                n, t = ln.split(' = ', 1)
                self.globs[n[1:].strip('"')] = t
            elif ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
                self.decls.add(m.group(1).strip('"'))
        self._st = {}

    # ---- types
    def ptype(self, tk, p):
        t = tk[p]
        m = INT.match(t)
        if m:
            return ('i', int(m.group(1))), p + 1
        if t in ('ptr', 'double', 'float', 'void', 'metadata', 'label'):
            return (t,), p + 1
        if t == '[':
            n = int(tk[p + 1])
            e, q = self.ptype(tk, p + 3)
            return ('arr', n, e), q + 1
        if t == '{':
            q = p + 1
            es = []
            while tk[q] != '}':
                e, q = self.ptype(tk, q)
                es.append(e)
                if tk[q] == ',':
                    q += 1
            return ('lit', tuple(es)), q + 1
        if t == '<':
            if tk[p + 1] == '{':
                e, q = self.ptype(tk, p + 1)
                return ('plit', e[1]), q + 1
            n = int(tk[p + 1])
            e, q = self.ptype(tk, p + 3)
            return ('vec', n, e), q + 1
        if t.startswith('%'):
            return ('st', t), p + 1
        raise Unsupported('type ' + ' '.join(tk[p:p + 5]))

    def fields(self, t):
        if t[0] in ('lit', 'plit'):
            return t[1]
        n = t[1]
        if n not in self._st:
            s = self.structs[n]
            if s.strip() == 'opaque':
                raise Unsupported('opaque struct ' + n)
            self._st[n], _ = self.ptype(tokens(s), 0)
        return self._st[n][1]

    def align(self, t):
        k = t[0]
        if k == 'i':
            return max(1, min(16, (t[1] + 7) // 8))
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'arr':
            return self.align(t[2])
        if k == 'plit':
            return 1
        if k in ('lit', 'st'):
            fs = self.fields(t)
            return max([self.align(f) for f in fs] + [1])
        raise Unsupported('align %r' % (t,))

    def size(self, t):
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            return b
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k in ('lit', 'st', 'plit'):
            return self.layout(t)[1]
        raise Unsupported('size %r' % (t,))

    def layout(self, t):
        if t[0] == 'st':
            self.fields(t)
            tt = self._st[t[1]]
        else:
            tt = t
        off = 0
        offs = []
        packed = tt[0] == 'plit'
        for f in tt[1]:
            a = 1 if packed else self.align(f)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(f)
        a = 1 if packed else self.align(t)
        return offs, (off + a - 1) // a * a

    # ---- constants / operands.  value forms:
    # ('v',name) ('c',int) ('null',) ('b',bool) ('f',str) ('undef',) ('g',name)
    # ('gepc', srcty, base, [idx ints]) ('agg', [values]) ('zero',) ('str', bytes)
    def pval(self, tk, p, ty=None):
        t = tk[p]
        if t.startswith('%'):
            return ('v', t), p + 1
        if t.startswith('@'):
            return ('g', t[1:].strip('"')), p + 1
        if t == 'null':
            return ('null',), p + 1
        if t in ('true', 'false'):
            return ('b', t == 'true'), p + 1
        if t in ('undef', 'poison'):
            return ('undef',), p + 1
        if t == 'zeroinitializer':
            return ('zero',), p + 1
        if t.startswith('c"'):
            return ('str', t[2:-1]), p + 1
        if t == 'c' and tk[p+1].startswith('"'):
            return ('str', tk[p+1][1:-1]), p + 2
        if t == 'getelementptr':
            q = p + 1
            while tk[q] in ('inbounds',):
                q += 1
            q += 1
            st, q = self.ptype(tk, q)
            q += 1
            _, q = self.ptype(tk, q)
            b, q = self.pval(tk, q)
            idx = []
            while tk[q] == ',':
                _, q = self.ptype(tk, q + 1)
                v, q = self.pval(tk, q)
                idx.append(v)
            return ('gepc', st, b, idx), q + 1
        if t in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[t]
            q = p + 1
            vs = []
            while tk[q] != close:
                et, q = self.ptype(tk, q)
                v, q = self.pval(tk, q, et)
                vs.append((et, v))
                if tk[q] == ',':
                    q += 1
            return ('agg', vs), q + 1
        if re.match(r'0x|[-+]?\d+\.', t):
            return ('f', t), p + 1
        if re.match(r'-?\d+$', t):
            return ('c', int(t)), p + 1
        raise Unsupported('value ' + ' '.join(tk[p:p + 6]))

    def ginit(self, name):
        """(is_const, type, initializer or None)"""
        s = self.globs[name]
        tk = tokens(s)
        p = 0
        ext = False
        while tk[p] not in ('global', 'constant'):
            if tk[p] == 'external':
                ext = True
            p += 1
        const = tk[p] == 'constant'
        ty, q = self.ptype(tk, p + 1)
        init = None
        if not ext and q < len(tk):
            init, q = self.pval(tk, q, ty)
        return const, ty, init

    # ---- functions
    def fn(self, name):
        if name not in self._fn:
            self._fn[name] = Fn(self, name, self.ftext[name])
        return self._fn[name]

ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'nocapture', 'readonly', 'writeonly', 'noalias', 'nsw', 'nuw', 'exact',
         'inbounds', 'tail', 'musttail', 'notail', 'fast', 'nnan', 'ninf', 'nsz', 'volatile', 'returned', 'immarg', 'dso_local',
         'local_unnamed_addr', 'internal', 'disjoint', 'nneg', 'contract', 'reassoc', 'arcp', 'afn', 'allocptr', 'readnone',
         'ccc', 'fastcc', 'samesign'}

class Ins:
    __slots__ = ('op', 'res', 'a', 'txt')

    def __init__(self, op, res, a, txt):
        self.op, self.res, self.a, self.txt = op, res, a, txt

    def __repr__(self):
        return self.txt.strip()

class Fn:
    def __init__(self, mod, name, lines):
        self.mod, self.name = mod, name
        self.args = []
        h = lines[0]
        tk = tokens(h)
        p = next(i for i, t in enumerate(tk) if t.startswith('@') and t[1:].strip('"') == name)
        # return type is the last complete type before the name
        q = 1
        self.ret = ('void',)
        while q < p:
            if tk[q] in ('align', 'dereferenceable', 'range'):
                q += 1
                if tk[q] == '(':
                    while tk[q] != ')':
                        q += 1
                q += 1
                continue
            try:
                self.ret, q2 = mod.ptype(tk, q)
                q = q2
            except (Unsupported, ValueError, IndexError):
                q += 1
        p += 2
        self.vararg = False
        while tk[p] != ')':
            if tk[p] == '...':
                self.vararg = True
                p += 1
                continue
            ty, p = mod.ptype(tk, p)
            while not tk[p].startswith('%'):
                if tk[p] in ('align',):
                    p += 2
                elif tk[p] in ('dereferenceable', 'byval', 'sret'):
                    raise Unsupported('byval/sret argument')
                else:
                    p += 1
            self.args.append((ty, tk[p]))
            p += 1
            if tk[p] == ',':
                p += 1
        self.blocks = {}
        self.order = []
        # entry block label: number of args unless named
        cur = '%' + str(len(self.args))
        first = True
        buf = []
        body = lines[1:]
        i = 0
        acc = None
        for ln in body:
            s = ln.split(' ; ')[0].rstrip() if '"' not in ln else ln.rstrip()
            if not s.strip():
                continue
            m = re.match(r'^("[^"]*"|[-\w$.]+):', s)
            if m and not s.startswith(' '):
                lab = '%' + m.group(1)
                if first and not buf:
                    cur = lab
                else:
                    if buf:
                        self.blocks[cur] = buf
                        self.order.append(cur)
                    cur = lab
                buf = []
                first = False
                continue
            if acc is not None:
                acc += ' ' + s.strip()
                if s.strip() == ']':
                    buf.append(acc)
                    acc = None
                continue
            if s.lstrip().startswith('switch ') and s.endswith('['):
                acc = s
                continue
            buf.append(s)
        self.blocks[cur] = buf
        self.order.append(cur)
        self.entry = self.order[0]
        for b in self.order:
            self.blocks[b] = [self.parse(l) for l in self.blocks[b]]
        self._cfg()

    def parse(self, ln):
        m = self.mod
        tk = [t for t in tokens(re.sub(r',? ?!\w+(\.\w+)* ![0-9]+', '', ln))]
        p = 0
        res = None
        if len(tk) > 1 and tk[1] == '=':
            res = tk[0]
            p = 2
        while tk[p] in ('tail', 'musttail', 'notail'):
            p += 1
        op = tk[p]
        p += 1

        def skip(p):
            while p < len(tk) and tk[p] in ATTRS:
                p += 1
            return p
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul',
                  'fdiv', 'frem'):
            p = skip(p)
            ty, p = m.ptype(tk, p)
            a, p = m.pval(tk, p)
            b, p = m.pval(tk, p + 1)
            return Ins(op, res, (ty, a, b), ln)
        if op == 'fneg':
            p = skip(p)
            ty, p = m.ptype(tk, p)
            a, p = m.pval(tk, p)
            return Ins(op, res, (ty, a), ln)
        if op in ('icmp', 'fcmp'):
            p = skip(p)
            pr = tk[p]
            ty, p = m.ptype(tk, skip(p + 1))
            a, p = m.pval(tk, p)
            b, p = m.pval(tk, p + 1)
            return Ins(op, res, (pr, ty, a, b), ln)
        if op == 'load':
            p = skip(p)
            ty, p = m.ptype(tk, p)
            _, p = m.ptype(tk, p + 1)
            a, p = m.pval(tk, p)
            return Ins(op, res, (ty, a), ln)
        if op == 'store':
            p = skip(p)
            ty, p = m.ptype(tk, p)
            v, p = m.pval(tk, p)
            _, p = m.ptype(tk, p + 1)
            a, p = m.pval(tk, p)
            return Ins(op, res, (ty, v, a), ln)
        if op == 'alloca':
            ty, p = m.ptype(tk, p)
            n = ('c', 1)
            if p < len(tk) and tk[p] == ',' and INT.match(tk[p + 1]):
                _, p = m.ptype(tk, p + 1)
                n, p = m.pval(tk, p)
            return Ins(op, res, (ty, n), ln)
        if op == 'getelementptr':
            p = skip(p)
            ty, p = m.ptype(tk, p)
            _, p = m.ptype(tk, p + 1)
            b, p = m.pval(tk, p)
            idx = []
            while p < len(tk) and tk[p] == ',':
                t2, p = m.ptype(tk, p + 1)
                v, p = m.pval(tk, p)
                idx.append(v)
            return Ins(op, res, (ty, b, idx), ln)
        if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'fptrunc'):
            p = skip(p)
            t1, p = m.ptype(tk, p)
            v, p = m.pval(tk, p)
            t2, p = m.ptype(tk, p + 1)
            return Ins(op, res, (t1, v, t2), ln)
        if op == 'select':
            p = skip(p)
            _, p = m.ptype(tk, p)
            c, p = m.pval(tk, p)
            ty, p = m.ptype(tk, p + 1)
            a, p = m.pval(tk, p)
            _, p = m.ptype(tk, p + 1)
            b, p = m.pval(tk, p)
            return Ins(op, res, (ty, c, a, b), ln)
        if op == 'freeze':
            ty, p = m.ptype(tk, p)
            a, p = m.pval(tk, p)
            return Ins(op, res, (ty, a), ln)
        if op == 'phi':
            p = skip(p)
            ty, p = m.ptype(tk, p)
            inc = []
            while p < len(tk) and tk[p] in ('[', ','):
                if tk[p] == ',':
                    p += 1
                    continue
                v, p = m.pval(tk, p + 1)
                inc.append((v, tk[p + 1]))
                p += 3
            return Ins(op, res, (ty, inc), ln)
        if op == 'br':
            if tk[p] == 'label':
                return Ins('jmp', None, (tk[p + 1],), ln)
            _, p = m.ptype(tk, p)
            c, p = m.pval(tk, p)
            return Ins('br', None, (c, tk[p + 2], tk[p + 5]), ln)
        if op == 'switch':
            ty, p = m.ptype(tk, p)
            v, p = m.pval(tk, p)
            d = tk[p + 2]
            p += 4
            cs = []
            while tk[p] != ']':
                _, p = m.ptype(tk, p)
                c, p = m.pval(tk, p)
                cs.append((c[1], tk[p + 2]))
                p += 3
            return Ins('switch', None, (ty, v, d, cs), ln)
        if op == 'ret':
            ty, p = m.ptype(tk, p)
            if ty == ('void',):
                return Ins('ret', None, (ty, None), ln)
            v, p = m.pval(tk, p)
            return Ins('ret', None, (ty, v), ln)
        if op == 'unreachable':
            return Ins(op, None, (), ln)
        if op == 'call':
            p = skip(p)
            while tk[p] in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range'):
                p += 1
                if tk[p] == '(':
                    while tk[p] != ')':
                        p += 1
                p += 1
                p = skip(p)
            ty, p = m.ptype(tk, p)
            if tk[p] == '(':           # function type for varargs
                d = 0
                while True:
                    if tk[p] == '(':
                        d += 1
                    if tk[p] == ')':
                        d -= 1
                        if d == 0:
                            break
                    p += 1
                p += 1
            f, p = m.pval(tk, p)
            p += 1
            args = []
            while tk[p] != ')':
                if tk[p] == ',':
                    p += 1
                    continue
                t2, p = m.ptype(tk, p)
                p = skip(p)
                while tk[p] in ('align', 'dereferenceable', 'byval', 'sret', 'dereferenceable_or_null'):
                    if tk[p] in ('byval', 'sret'):
                        raise Unsupported('byval call')
                    p += 1
                    if tk[p] == '(':
                        while tk[p] != ')':
                            p += 1
                    p += 1
                    p = skip(p)
                if t2 == ('metadata',):
                    args.append((t2, ('undef',)))
                    while tk[p] not in (',', ')'):
                        p += 1
                    continue
                v, p = m.pval(tk, p)
                args.append((t2, v))
            return Ins('call', res, (ty, f, args), ln)
        return Ins('unsupported', res, (op,), ln)

    # ---- control flow
    def succ(self, b):
        t = self.blocks[b][-1]
        if t.op == 'jmp':
            return [t.a[0]]
        if t.op == 'br':
            return [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[2]] + [c[1] for c in t.a[3]]
        return []

    def _cfg(self):
        self.pred = {b: [] for b in self.order}
        for b in self.order:
            for s in self.succ(b):
                if b not in self.pred[s]:
                    self.pred[s].append(b)
        # dominators
        order = []
        seen = set()
        stack = [(self.entry, iter(self.succ(self.entry)))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = order
        dom = {b: set(order) for b in order}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in self.pred[b] if p in dom]
                n = set.intersection(*ps) | {b} if ps else {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        self.loops = {}
        for b in order:
            for s in self.succ(b):
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in self.pred[x] if p in dom)
        # irreducible check: every retreating edge must be a back edge
        idx = {b: i for i, b in enumerate(order)}
        for b in order:
            for s in self.succ(b):
                if idx[s] <= idx[b] and s not in dom[b]:
                    raise Unsupported('irreducible loop')
