"""Provenance of field values: which element ids guard the reads a field's value comes from (backward slice)."""
import ir
import mod

PRIM = {'UnserializeUInt': 'uint', 'UnserializeInt': 'int', 'UnserializeFloat': 'float', 'UnserializeString': 'string',
        'ReadUInt': 'vint', 'ReadID': 'id', 'ParseElementHeader': 'header', 'GetUIntLength': 'vint'}


class Ids:
    """forward analysis: which element ids a tested value may have at a program point"""

    def __init__(self, fn, ids):
        self.fn, self.ids = fn, ids
        self.T = ir.terms(fn)
        self.run()

    def key(self, v):
        v = self.uncast(v)
        if v[0] == 'i':
            i = self.fn.inst(v)
            if i.op == 'load':
                b, off, var = self.T.split(i.o[0])
                if b[0] == 'i' and self.fn.inst(b).op == 'alloca' and not var:
                    return ('m', b[1], off)
            return v
        if v[0] == 'a':
            return v
        return None

    def uncast(self, v):
        while v[0] == 'i' and self.fn.inst(v).op in ('zext', 'sext', 'trunc', 'freeze'):
            v = self.fn.inst(v).o[0]
        return v

    def kills(self, i, st):
        if i.op in ('call', 'invoke'):
            for a in i.o:
                if a[0] == 'i':
                    b, _, _ = self.T.split(a)
                    if b[0] == 'i' and self.fn.inst(b).op == 'alloca':
                        for k in [k for k in st if k[0] == 'm' and k[1] == b[1]]:
                            del st[k]
        elif i.op == 'store':
            b, off, var = self.T.split(i.o[1])
            if b[0] == 'i':
                st.pop(('m', b[1], off), None)
        st.pop(i.ref, None)

    def refine(self, st, conds, at=0):
        st = dict(st)
        self.now = at
        for c in conds:
            if c[0] == 'sw':
                k = self.key(c[1])
                if k and c[3]:
                    vs = frozenset(x for x in c[2] if x in self.ids)
                    if len(vs) == len(c[2]):
                        st[k] = (st[k][0] & vs if k in st else vs, at)
                elif k and k in st:
                    st[k] = (st[k][0] - set(c[2]), st[k][1])
            else:
                self.cond(st, c[1], c[2])
        return st

    def cond(self, st, v, truth):
        if v[0] != 'i':
            return
        i = self.fn.inst(v)
        if i.op == 'xor' and i.o[1] in (('k', '1', 1), ('k', 1)):
            return self.cond(st, i.o[0], not truth)
        if i.op == 'icmp' and i.pred in ('eq', 'ne'):
            a, b = i.o
            if a[0] == 'k':
                a, b = b, a
            if b[0] != 'k' or int(b[1]) not in self.ids:
                return
            k = self.key(a)
            if k is None:
                return
            n = int(b[1])
            if (i.pred == 'eq') == truth:
                st[k] = (frozenset([n]) if k not in st or n in st[k][0] else frozenset(), self.now)
            elif k in st:
                st[k] = (st[k][0] - {n}, st[k][1])
        elif i.op in ('or', 'and', 'select') and i.ty == 'i1':
            if i.op == 'select':
                c, x, y = i.o
                if x[0] == 'k' and int(x[1]) != 0:
                    parts, op = [c, y], 'or'
                elif y[0] == 'k' and int(y[1]) == 0:
                    parts, op = [c, x], 'and'
                else:
                    return
            else:
                parts, op = list(i.o), i.op
            if (op == 'and') == truth:
                for p in parts:
                    self.cond(st, p, truth)
            else:
                outs = []
                for p in parts:
                    s = dict(st)
                    self.cond(s, p, truth)
                    outs.append(s)
                j = self.join(outs)
                st.clear()
                st.update(j)

    def join(self, sts):
        out = dict(sts[0])
        for s in sts[1:]:
            out = {k: (v[0] | s[k][0], max(v[1], s[k][1])) for k, v in out.items() if k in s}
        return out

    def run(self):
        f = self.fn
        self.inn = {0: {}}
        edges = {}
        pos = {b: n + 1 for n, b in enumerate(f.rpo())}
        work = [0]
        n = 0
        while work and n < 20000:
            n += 1
            b = work.pop(0)
            st = dict(self.inn[b])
            for i in f.blocks[b]:
                self.kills(i, st)
            for s in f.succs(b):
                e = self.refine(st, f.edge_conds(b, s), pos[b])
                if any(not v[0] for v in e.values()):
                    # contradictory edge
                    if (b, s) in edges:
                        continue
                    edges[(b, s)] = None
                else:
                    if edges.get((b, s), 0) == e:
                        continue
                    edges[(b, s)] = e
                ins = [edges[(p, s)] for p in f.preds()[s] if edges.get((p, s)) is not None]
                if not ins:
                    continue
                new = self.join(ins)
                if s not in self.inn or self.inn[s] != new:
                    self.inn[s] = new
                    if s not in work:
                        work.append(s)
        self.edges = edges

    def at(self, i):
        st = dict(self.inn.get(i.bb, {}))
        for x in self.fn.blocks[i.bb]:
            if x.idx >= i.idx:
                break
            self.kills(x, st)
        return self.flat(st)

    def edge(self, b, s):
        return self.flat(self.edges.get((b, s)) or {})

    def flat(self, st):
        """ids of the most recently tested id value"""
        if not st:
            return frozenset()
        return max(st.values(), key=lambda v: (v[1], -len(v[0])))[0]


class Prov:
    def __init__(self, prog, inns, ids):
        self.p, self.ids = prog, ids
        self.fns = [f for f in prog.repo_fns(inns) if not f.decl]
        self._ids = {}
        self.stores, self.outs, self.callers = {}, {}, {}
        names = {f.name for f in self.fns}
        for f in self.fns:
            T = ir.terms(f)
            for i in f.all():
                if i.op == 'store':
                    for x in self.ptrs(f, i.o[1]):
                        k = self.fk(f, x)
                        if k:
                            self.stores.setdefault(k, []).append((f, i, x))
                elif i.op in ('call', 'invoke'):
                    for t in prog.targets(i):
                        if t.name in names:
                            self.callers.setdefault(t.name, []).append((f, i))
                    for n, a in enumerate(i.o):
                        if mod.isptr(f, a):
                            for x in self.ptrs(f, a):
                                k = self.fk(f, x)
                                if k and x[0] in ('i', 'a') and not self.whole(i, n, k):
                                    self.outs.setdefault(k, []).append((f, i, n, x))

    def whole(self, c, n, k):
        """argument n of call c is the object itself, not its first member"""
        for t in self.p.targets(c):
            if t.repo and n < len(t.ptypes):
                pt = self.p.pointee(t.ptypes[n])
                ft = [m[4] for m in self.p.fields(k[0]) if m[1] == k[1]]
                if pt in self.p.types and pt not in ft:
                    return True
        return False

    def allocator(self, g):
        """function whose result is a fresh allocation"""
        for r in g.rets():
            if r.o:
                for x in self.ptrs(g, r.o[0]):
                    if x[0] == 'i' and g.inst(x).op in ('call', 'invoke') and (g.inst(x).callee or '').startswith('_Zn'):
                        return True
        return False

    def ptrs(self, f, a, depth=0):
        """pointer operands an operand may stand for, through phis"""
        if a[0] == 'i' and depth < 4:
            i = f.inst(a)
            if i.op == 'phi':
                r = []
                for x, _ in i.phi:
                    r += self.ptrs(f, x, depth + 1)
                return r
            if i.op == 'select':
                return self.ptrs(f, i.o[1], depth + 1) + self.ptrs(f, i.o[2], depth + 1)
        return [a]

    def fk(self, f, addr):
        """(owner, field) of the innermost named member at an address"""
        m = ir.terms(f).member(addr)
        if not m[2]:
            t = self.newtype(f, m[0])
            if t:
                base, off, var = ir.terms(f).split(addr)
                m = ir.terms(f)._walk(base, t, off, var, 0)
        names = [n for n in m[1] if not n.startswith('+')]
        return (m[2], names[-1]) if names and m[2] else None

    def newtype(self, f, base, depth=0):
        """class constructed in a fresh allocation"""
        if depth > 2 or base[0] != 'i' or f.inst(base).op not in ('call', 'invoke', 'phi'):
            return None
        if f.inst(base).op == 'phi':
            for x, _ in f.inst(base).phi:
                if x[0] == 'i' and f.inst(x).op in ('call', 'invoke'):
                    t = self.newtype(f, x, depth + 1)
                    if t:
                        return t
        for u in f.uses().get(base[1], []):
            if u.op in ('call', 'invoke') and u.callee and u.o and u.o[0] == base:
                g = self.p.fn.get(u.callee)
                if g and g.repo and g.cls in self.p.types and g.args and g.args[0] == 'this':
                    return g.cls
            if u.op == 'phi' and u.ref != base:
                t = self.newtype(f, u.ref, depth + 1) if f.inst(base).op != 'phi' else None
                if t:
                    return t
        return None

    def idsof(self, f):
        if f.name not in self._ids:
            self._ids[f.name] = Ids(f, self.ids)
        return self._ids[f.name]

    def K(self, i, K):
        return self.idsof(i.fn).at(i) or K

    # origins: set of (kind, K frozenset, loc) ; constants: ('const', value)
    def field(self, owner, name):
        self.out, self.seen, self.stack = set(), set(), ()
        self._field((owner, name), frozenset())
        return self.out

    def value(self, f, v):
        self.out, self.seen, self.stack = set(), set(), ()
        self._val(f, v, frozenset())
        return self.out

    def _field(self, k, K):
        if ('F', k, K) in self.seen:
            return
        self.seen.add(('F', k, K))
        sv, self.stack = self.stack, ()
        try:
            self._field2(k, K)
        finally:
            self.stack = sv

    def _field2(self, k, K):
        for f, s, x in self.stores.get(k, []):
            K2 = self.K(s, K)
            if s.o[1] != x:
                K2 = self.phik(f, s.o[1], x) or K2
            self._val(f, s.o[0], K2, force=s.o[1] != x)
        for f, c, n, x in self.outs.get(k, []):
            K2 = self.K(c, K)
            if c.o[n] != x:
                K2 = self.phik(f, c.o[n], x) or K2
            self._outw(f, c, n, K2)

    def phik(self, f, v, x):
        """ids under which phi v takes pointer x"""
        i = f.inst(v) if v[0] == 'i' else None
        if i is not None and i.op == 'phi':
            r = frozenset()
            for y, b in i.phi:
                if y == x:
                    r |= self.idsof(f).edge(b, i.bb)
                elif y[0] == 'i' and f.inst(y).op == 'phi' and x in self.ptrs(f, y):
                    r |= self.phik(f, y, x)
            return r
        return frozenset()

    def origin(self, kind, K, i):
        self.out.add((kind, K, i.loc))

    def _outw(self, f, c, n, K, depth=0):
        """call c of f may write through its n-th argument"""
        if ('O', c.fn.name, c.id, n, K) in self.seen:
            return
        self.seen.add(('O', c.fn.name, c.id, n, K))
        vm = self.p.vmethod(c) if not c.callee else None
        nm = self.p.callee_name(c) or ''
        b = nm.split('::')[-1]
        if nm.endswith('IMkvReader::Read') or not c.callee and b == 'Read':
            return self.origin('Read', K, c)
        if b in PRIM:
            return self.origin(PRIM[b], K, c)
        if c.callee and (c.callee.startswith('llvm.mem') or c.callee in ('memcpy', 'strcpy', 'strncpy', 'memmove')):
            if n == 0 and 'set' not in c.callee and len(c.o) > 1:
                self._mem(f, c.o[1], K, c)
            return
        for g in self.p.targets(c):
            if not g.repo or g.decl:
                continue
            self._argw(g, n, K)

    def _argw(self, g, n, K):
        if ('A', g.name, n, K) in self.seen:
            return
        self.seen.add(('A', g.name, n, K))
        T = ir.terms(g)
        for i in g.all():
            if i.op == 'store' and T.split(i.o[1])[0] == ('a', n) and not T.member(i.o[1])[2]:
                self._val(g, i.o[0], self.K(i, K))
            elif i.op in ('call', 'invoke'):
                for m, a in enumerate(i.o):
                    if a == ('a', n):
                        self._outw(g, i, m, self.K(i, K))

    def _val(self, f, v, K, depth=0, force=False):
        if v[0] == 'k' or v[0] == 'n':
            self.out.add(('const', int(v[1]) if v[0] == 'k' else 0, ''))
            return
        if v[0] == 'fp':
            self.out.add(('const', v[1], ''))
            return
        if v[0] == 'a':
            if self.stack and self.stack[-1][1] == f.name:
                # inside a call being evaluated: only that call's argument
                sv = self.stack
                g, _, c = sv[-1]
                self.stack = sv[:-1]
                if v[1] < len(c.o):
                    self._val(g, c.o[v[1]], self.K(c, K))
                self.stack = sv
                return
            if ('arg', f.name, v, K) in self.seen:
                return
            self.seen.add(('arg', f.name, v, K))
            for g, c in self.callers.get(f.name, []):
                if v[1] < len(c.o):
                    self._val(g, c.o[v[1]], self.K(c, K))
            return
        if v[0] != 'i':
            return
        key = (f.name, v, K, self.stack[-1][2].ref if self.stack else None)
        if key in self.seen:
            return
        self.seen.add(key)
        i = f.inst(v)
        own = self.idsof(f).at(i)
        if force and K and own and K < own:
            # the destination was chosen by a narrower id test than the one around the read
            own = K
        K = own or K
        if force and i.op in ('call', 'invoke'):
            return self._call(f, i, K)
        if i.op == 'phi':
            for x, b in i.phi:
                self._val(f, x, self.idsof(f).edge(b, i.bb) or K)
        elif i.op == 'select':
            self._val(f, i.o[1], K)
            self._val(f, i.o[2], K)
        elif i.op == 'load':
            self._mem(f, i.o[0], K, i)
        elif i.op == 'getelementptr':
            self._val(f, i.o[0], K)
        elif i.op in ('call', 'invoke'):
            self._call(f, i, K)
        elif i.op == 'alloca':
            self._mem(f, v, K, i)
        else:
            for x in i.o:
                self._val(f, x, K)

    def _mem(self, f, addr, K, at):
        """contents of memory at addr"""
        T = ir.terms(f)
        base, off, var = T.split(addr)
        if base[0] == 'g':
            g = base[1]
            self.out.add(('glob', g, ''))
            return
        if base[0] == 'i' and f.inst(base).op == 'alloca':
            k = ('M', f.name, base[1], off, K)
            if k in self.seen:
                return
            self.seen.add(k)
            mk = None
            m = T.member(addr)
            if m[2]:
                mk = self.fk(f, addr)
                self._field(mk, K)
                return
            for u in self.uses_of(f, base):
                if u.op == 'store':
                    for x in self.ptrs(f, u.o[1]):
                        b2, o2, v2 = T.split(x)
                        if b2 == base and (o2 == off or var or v2):
                            K2 = self.K(u, K)
                            if x != u.o[1]:
                                K2 = self.phik(f, u.o[1], x) or K2
                            self._val(f, u.o[0], K2, force=x != u.o[1])
                elif u.op in ('call', 'invoke'):
                    for n, a in enumerate(u.o):
                        for x in self.ptrs(f, a):
                            if x[0] == 'i' and T.split(x)[0] == base:
                                K2 = self.K(u, K)
                                if x != a:
                                    K2 = self.phik(f, a, x) or K2
                                self._outw(f, u, n, K2)
            return
        m = T.member(addr)
        if m[2]:
            self._field(self.fk(f, addr), K)
            return
        if base[0] == 'a':
            # memory behind a pointer parameter
            for g, c in self.callers.get(f.name, []):
                if base[1] < len(c.o) and ('pm', g.name, c.id, base[1], K) not in self.seen:
                    self.seen.add(('pm', g.name, c.id, base[1], K))
                    self._mem(g, c.o[base[1]], self.K(c, K), c)
            return
        self._val(f, base, K)

    def uses_of(self, f, base):
        out, work, seen = [], [base[1]], set()
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            for u in f.uses().get(x, []):
                out.append(u)
                if u.op in ('getelementptr', 'phi', 'select', 'bitcast'):
                    work.append(u.id)
        return out

    def _call(self, f, c, K):
        nm = self.p.callee_name(c) or ''
        b = nm.split('::')[-1]
        if b in PRIM and self.p.targets(c) and self.p.targets(c)[0].repo:
            # return value of a primitive: a status or (ReadUInt, ReadID) the value
            self.origin(PRIM[b], K, c)
            return
        ts = [t for t in self.p.targets(c) if t.repo and not t.decl]
        if c.callee and (c.callee.startswith('_Zn') or c.callee == 'malloc') or any(self.allocator(t) for t in ts):
            for u in self.uses_of(f, c.ref):
                if u.op in ('call', 'invoke'):
                    for n, a in enumerate(u.o):
                        if a[0] == 'i' and (a == c.ref or ir.terms(f).split(a)[0] == c.ref or
                                            c.ref in self.ptrs(f, a)):
                            self._outw(f, u, n, self.K(u, K))
                elif u.op == 'store' and u.o[1] != c.ref and u.o[0] == c.ref:
                    pass
                elif u.op == 'store' and not self.fk(f, u.o[1]):
                    self._val(f, u.o[0], self.K(u, K))
            return
        if not ts:
            for a in c.o:
                self._val(f, a, K)
            return
        for g in ts:
            sv = self.stack
            if len(sv) < 6 and not any(x[1] == g.name for x in sv):
                self.stack = sv + ((f, g.name, c),)
            for r in g.rets():
                if r.o:
                    self._val(g, r.o[0], self.K(r, K))
            self.stack = sv
