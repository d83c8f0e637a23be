"""Demand-driven difference-bound prover on SSA with versioned memory cells.

Proves facts of the form  u - v <= c  between integer SSA values, constants and the values that
fields hold at a program point, using: dominating branch conditions, definitions (adding constants,
phis, selects), reaching stores, conditions on call results and declared class invariants for the values
fields have on entry and after calls.  It is the ABCD array-bounds-check algorithm with field
versions; integers are taken as mathematical integers (machine wrap-around is not modelled).
"""
import ir
import mod
import own

Z = ('0',)
CAST = ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'addrspacecast')


class Prover:
    def __init__(self, prog, entry_facts=None, post_facts=None, fuel=4000):
        self.prog = prog
        self.entry_facts = entry_facts      # (prover, fn, cell) -> [(cellname2, k, dir)]
        self.post_facts = post_facts
        self.fuel0 = fuel

    def on(self, f):
        if 'bounds' not in f._cache or f._cache['bounds'].P is not self:
            f._cache['bounds'] = FnProver(self, f)
        return f._cache['bounds']


class FnProver:
    def __init__(self, P, f):
        self.P, self.f, self.prog = P, f, f.prog
        self.T = ir.terms(f)
        self.nmemo, self.fmemo, self.vmemo, self.cmemo = {}, {}, {}, {}
        self.stamp = {}
        self.bytes = set()      # values read as unsigned bytes

    # ------------------------------------------------------------ cells
    def cell(self, addr):
        """(base node, field path, owner) of a field address, or None"""
        if addr in self.cmemo:
            return self.cmemo[addr]
        self.cmemo[addr] = None
        b, names, owner, ty, var = self.T.member(addr)
        r = None
        if not var and names and owner and not any(n.startswith('+') for n in names[1:]):
            r = (self.base(b), tuple(names), owner)
        elif not var and b[0] == 'i' and self.f.inst(b).op == 'alloca' and not owner:
            r = (('loc', b[1]), tuple(names), None)
        elif not var and b[0] == 'a' and not names and not owner:
            r = (('a', b[1]), (), None)
        self.cmemo[addr] = r
        return r

    def base(self, b):
        if b[0] == 'i' and self.f.inst(b).op == 'alloca':
            return ('loc', b[1])
        return self.node(b)[0]

    def version(self, c, bb, idx):
        """node for what cell c holds just before instruction (bb, idx)"""
        f = self.f
        key = (c, bb, idx)
        if key in self.vmemo:
            return self.vmemo[key]
        self.vmemo[key] = (('cphi', bb, c), 0)
        r = self._version(c, bb, idx)
        self.vmemo[key] = r
        return r

    def _version(self, c, bb, idx):
        f = self.f
        hops = 0
        while True:
            hops += 1
            for i in reversed(f.blocks[bb][:idx]):
                w = self.writes(i, c)
                if w is None:
                    continue
                return w
            ps = [p for p in f.preds()[bb] if p in f.idom()]
            if not ps:
                return (('entry', c), 0)
            if len(ps) > 1:
                if self.quiet(c, bb):
                    # nothing writes it between the immediate dominator and here
                    bb = f.idom()[bb]
                    idx = len(f.blocks[bb])
                    continue
                return (('cphi', bb, c), 0)
            bb = ps[0]
            idx = len(f.blocks[bb])

    def quiet(self, c, bb):
        """no write to the cell on any way from the immediate dominator of bb to bb"""
        f = self.f
        d = f.idom()[bb]
        seen, st = set(), list(f.preds()[bb])
        while st:
            x = st.pop()
            if x == d or x in seen:
                continue
            seen.add(x)
            if any(self.writes(i, c) is not None for i in f.blocks[x]):
                return False
            st.extend(p for p in f.preds()[x] if p in f.idom())
        return True

    def writes(self, i, c):
        """None: does not write the cell; otherwise (node, offset) it holds afterwards"""
        f = self.f
        if i.op == 'store':
            k = self.cell(i.o[1])
            if k == c:
                return self.node(i.o[0])
            if k is None:
                if c[0][0] == 'loc':
                    b = self.T.split(i.o[1])[0]
                    if b == ('i', c[0][1]):
                        return (('clob', i.id, c), 0)
                    return None
                fk = mod.fieldkey(f, i.o[1])
                if fk[0] in ('L', 'g') or fk[0] in ('d', 'pd'):
                    return None
                if fk[0] == 'f' and c[2] and fk[1:] != (c[2], c[1][-1]):
                    return None
                if fk[0] in ('p', 'c', 'phi') or fk == '*':
                    # through a plain pointer: integers of another width or pointers to other things
                    return None if c[2] else (('clob', i.id, c), 0)
                return (('clob', i.id, c), 0)
            if k[1:] == c[1:] and k[0] != c[0] and k[0][0] != 'loc' and c[0][0] != 'loc':
                if self.fresh(k[0]) or self.fresh(c[0]):
                    return None
                return (('clob', i.id, c), 0)
            return None
        if i.op in ('call', 'invoke'):
            if (i.callee or '').startswith('llvm.'):
                if 'memset' in i.callee or 'memcpy' in i.callee:
                    k = self.T.split(i.o[0])[0]
                    if c[0] == ('loc', k[1]) and k[0] == 'i':
                        return (('clob', i.id, c), 0)
                return None
            keys, locs = mod.call_writes(self.prog, f, i)
            if c[0][0] == 'loc':
                return (('post', i.id, c), 0) if c[0][1] in locs else None
            # writes of library containers (no field known) do not reach fields of this library's classes
            if c[2] and ('f', c[2], c[1][-1]) in keys or '*' in keys and not c[2]:
                return (('post', i.id, c), 0)
            if not c[2] and c[0][0] == 'a' and ('p', c[0][1]) in keys:
                return (('post', i.id, c), 0)
        return None

    def fresh(self, n):
        return n[0] == 'v' and own.is_alloc(self.f.inst(('i', n[1])))

    # ------------------------------------------------------------ nodes
    def node(self, v):
        """(node, offset): the value is node + offset"""
        if v in self.nmemo:
            return self.nmemo[v]
        self.nmemo[v] = (('v',) + tuple(v[1:2]), 0) if v[0] == 'i' else (v, 0)
        r = self._node(v)
        self.nmemo[v] = r
        return r

    def _node(self, v):
        if v[0] == 'k':
            return (Z, int(v[1]))
        if v[0] in ('n', 'z'):
            return (Z, 0)
        if v[0] == 'a':
            return (('a', v[1]), 0)
        if v[0] != 'i':
            return (tuple(v), 0)
        i = self.f.inst(v)
        if i.op in CAST:
            r = self.node(i.o[0])
            if i.op == 'zext' and i.o[0][0] == 'i' and self.f.inst(i.o[0]).op == 'load' and self.f.inst(i.o[0]).sz == 1:
                self.bytes.add(r[0])
            return r
        if i.op in ('add', 'sub') and i.o[1][0] == 'k':
            n, o = self.node(i.o[0])
            k = int(i.o[1][1])
            return (n, o + (k if i.op == 'add' else -k))
        if i.op == 'add' and i.o[0][0] == 'k':
            n, o = self.node(i.o[1])
            return (n, o + int(i.o[0][1]))
        if i.op == 'add':
            (a, x), (b, y) = self.node(i.o[0]), self.node(i.o[1])
            if a == Z or b == Z:
                return (b if a == Z else a, x + y)
            if a == b and x == y:
                return (('*', a, x, 2), 0)
            return (('+',) + tuple(sorted((a, b), key=str)), x + y)
        if i.op == 'sub':
            (a, x), (b, y) = self.node(i.o[0]), self.node(i.o[1])
            if a == b:
                return (Z, x - y)
            return (('-', a, b), x - y)
        if i.op in ('sdiv', 'udiv', 'ashr', 'lshr') and i.o[1][0] == 'k':
            n, o = self.node(i.o[0])
            if o == 0 and n[0] == '-':
                # distance of two pointers
                k = int(i.o[1][1])
                k = k if i.op.endswith('div') else 1 << k
                return (('dist', n[1], n[2], k), 0)
            return (('/', n, o, int(i.o[1][1]), i.op), 0)
        if i.op == 'mul' and i.o[0][0] == 'k' and i.o[1][0] != 'k':
            n, o = self.node(i.o[1])
            k = int(i.o[0][1])
            return (Z, o * k) if n == Z else (('*', n, o, k), 0)
        if i.op in ('mul', 'shl') and i.o[1][0] == 'k':
            n, o = self.node(i.o[0])
            k = int(i.o[1][1])
            k = k if i.op == 'mul' else 1 << k
            if n == Z:
                return (Z, o * k)
            return (('*', n, o, k), 0)
        if i.op == 'load':
            c = self.cell(i.o[0])
            if c is not None:
                return self.version(c, i.bb, i.idx)
        if i.op in ('call', 'invoke') and i.callee == 'strlen' and self.node(i.o[0])[0][0] in ('a', 'loc', 'g'):
            return (('strlen', self.node(i.o[0])[0]), 0)
        if i.op == 'getelementptr' and i.off is not None:
            n, o = self.node(i.o[0])
            return (('&', n, o + i.off), 0) if i.off else (n, o)
        return (('v', i.id), 0)

    def where(self, n):
        """block in which the node gets its value (None: entry)"""
        f = self.f
        h = n[0]
        if h == 'v':
            return f.insts[n[1]].bb
        if h == 'cphi':
            return n[1]
        if h in ('clob', 'post'):
            return f.insts[n[1]].bb
        if h in ('+', '-', 'dist'):
            ws = [self.where(x) for x in n[1:3]]
            ws = [w for w in ws if w is not None]
            if not ws:
                return None
            if len(ws) == 1:
                return ws[0]
            return ws[1] if f.dominates(ws[0], ws[1]) else ws[0]
        if h in ('/', '*', '&'):
            return self.where(n[1])
        if h == 'entry':
            return self.where(n[1][0]) if n[1][0][0] != 'loc' else None
        return None

    def phi_in(self, n, b):
        """{pred: (node, offset)} when n is a merge at block b"""
        f = self.f
        if n[0] == 'v':
            i = f.insts[n[1]]
            if i.op == 'phi' and i.bb == b:
                return {pb: self.node(x) for x, pb in i.phi}
        if n[0] == 'cphi' and n[1] == b:
            return {pb: self.version(n[2], pb, len(f.blocks[pb])) for pb in f.preds()[b] if pb in f.idom()}
        return None

    def phi_block(self, n):
        if n[0] == 'v':
            i = self.f.insts[n[1]]
            return i.bb if i.op == 'phi' else None
        return n[1] if n[0] == 'cphi' else None

    # ------------------------------------------------------------ facts
    def cond_facts(self, v, truth, depth=0):
        """[(x, y, k)]: x - y <= k"""
        out = []
        if v[0] != 'i' or depth > 6:
            return out
        i = self.f.inst(v)
        if i.op == 'xor' and i.ty == 'i1':
            return self.cond_facts(i.o[0], not truth, depth + 1)
        if i.op in ('zext', 'trunc', 'freeze'):
            return self.cond_facts(i.o[0], truth, depth + 1)
        if i.op == 'and' and truth or i.op == 'or' and not truth:
            return self.cond_facts(i.o[0], truth, depth + 1) + self.cond_facts(i.o[1], truth, depth + 1)
        if i.op == 'select' and i.ty == 'i1':
            if truth and i.o[2][0] == 'k' and int(i.o[2][1]) == 0:
                return self.cond_facts(i.o[0], True, depth + 1) + self.cond_facts(i.o[1], True, depth + 1)
            if not truth and i.o[1][0] == 'k' and int(i.o[1][1]) != 0:
                return self.cond_facts(i.o[0], False, depth + 1) + self.cond_facts(i.o[2], False, depth + 1)
        if i.op == 'phi' and i.ty in ('i1', 'i8'):
            # a constant arm is excluded: the value came through the only other arm
            rest = [(x, pb) for x, pb in i.phi if not (x[0] == 'k' and (int(x[1]) != 0) != truth)]
            if len(rest) == 1:
                x, pb = rest[0]
                out += self.facts(pb)
                for c in self.f.edge_conds(pb, i.bb):
                    if c[0] == 'c':
                        out += self.cond_facts(c[1], c[2], depth + 1)
                out += self.cond_facts(x, truth, depth + 1)
            return out
        if i.op in ('call', 'invoke') and self.P.post_facts:
            return self.P.post_facts(self, i, 'true' if truth else 'false')
        if i.op != 'icmp':
            return out
        p = i.pred
        if not truth:
            p = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge',
                 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[p]
        (a, x), (b, y) = self.node(i.o[0]), self.node(i.o[1])
        # a + x  p  b + y
        if p in ('slt', 'ult'):
            out.append((a, b, y - x - 1))
        elif p in ('sle', 'ule'):
            out.append((a, b, y - x))
        elif p in ('sgt', 'ugt'):
            out.append((b, a, x - y - 1))
        elif p in ('sge', 'uge'):
            out.append((b, a, x - y))
        elif p == 'eq':
            out += [(a, b, y - x), (b, a, x - y)]
        elif p == 'ne':
            out.append(('ne', a, b, y - x))
        if p == 'ult' and not (b == Z and y < 0):
            out.append((Z, a, x))           # a + x is a non-negative number below the other
            out.append((Z, b, y - 1))
        if p == 'ule' and not (b == Z and y < 0):
            out.append((Z, a, x))
        if p == 'ugt' and not (a == Z):
            out.append((Z, b, y))
            out.append((Z, a, x - 1))
        if p == 'uge' and a != Z:
            out.append((Z, b, y))
            out.append((Z, a, x))
        j = self.through(i.o[0])
        if p == 'eq' and j is not None and self.P.post_facts and b == Z and y == 0:
            if j.op in ('call', 'invoke'):
                out += self.P.post_facts(self, j, 'zero')
        if p == 'ne' and j is not None and self.P.post_facts and b == Z and y == 0:
            if j.op in ('call', 'invoke'):
                out += self.P.post_facts(self, j, 'nonzero')
        return out

    def through(self, v):
        while v[0] == 'i' and self.f.inst(v).op in ('zext', 'freeze'):
            v = self.f.inst(v).o[0]
        return self.f.inst(v) if v[0] == 'i' else None

    def facts(self, b):
        if b in self.fmemo:
            return self.fmemo[b]
        self.fmemo[b] = []
        out = []
        for c in self.f.dom_facts(b):
            out += self.one(c)
        self.fmemo[b] = out
        return out

    def one(self, c):
        if c[0] == 'c':
            return self.cond_facts(c[1], c[2])
        if c[0] == 'sw' and c[3] and len(c[2]) == 1:
            n, o = self.node(c[1])
            k = int(c[2][0])
            return [(n, Z, k - o), (Z, n, o - k)]
        return []

    def edge_facts(self, p, b):
        out = list(self.facts(p))
        for c in self.f.edge_conds(p, b):
            out += self.one(c)
        return out

    # ------------------------------------------------------------ proof
    def prove(self, u, v, c, b, extra=()):
        """u - v <= c at (the end of the conditions of) block b; u, v are (node, offset)"""
        facts = list(self.facts(b)) + list(extra)
        for self.deep in (3, 6, 40):
            self.fuel = self.P.fuel0
            if self.pr(u[0], v[0], c - u[1] + v[1], facts, b, {}, 0):
                return True
        return False

    def intrinsic(self, n):
        """facts (x, y, k) about a node from its definition, other than merges"""
        out = []
        if n in self.bytes:
            out += [(Z, n, 0), (n, Z, 255)]
        if n[0] in ('entry', 'post') and self.P.entry_facts:
            out += self.P.entry_facts(self, n)
        elif n[0] == 'strlen':
            out.append((Z, n, 0))
        elif n[0] == 'v':
            i = self.f.insts[n[1]]
            if i.op in ('and',) and i.o[1][0] == 'k' and int(i.o[1][1]) >= 0:
                out += [(Z, n, 0), (n, Z, int(i.o[1][1]))]
            elif i.op in ('urem', 'srem') and i.o[1][0] == 'k' and int(i.o[1][1]) > 0:
                out += [(n, Z, int(i.o[1][1]) - 1)]
                if i.op == 'urem':
                    out.append((Z, n, 0))
            elif i.op in ('call', 'invoke') and i.callee == 'strlen':
                out.append((Z, n, 0))
            elif i.op == 'load' and i.sz == 1:
                out += [(Z, n, 0), (n, Z, 255)]
        return out

    def pr(self, u, v, c, facts, b, active, depth):
        if u == v:
            return c >= 0
        if self.fuel <= 0 or depth > self.deep:
            return False
        self.fuel -= 1
        key = (u, v, b)
        turns = active.get('turns', 0)
        if key in active:
            # round a loop with a claim that is no stronger: induction; otherwise no progress
            if active[key][1] >= turns:
                return False
            if c == active[key][0] - 1 and any(
                    t[0] == 'ne' and ((t[1], t[2]) == (u, v) and c == t[3] - 1 or (t[2], t[1]) == (u, v) and c == -t[3] - 1)
                    for t in facts):
                return True
            return c >= active[key][0]
        active = dict(active)
        active[key] = (c, turns)
        # sharpening: u - w <= 0 and u != w  =>  u - w <= -1
        f = self.f
        B = self.phi_block(u)
        early = B is not None and B == self.phi_block(v)
        if early and self.merge(u, v, c, b, active, depth, turns):
            return True
        for t in facts:
            if t[0] == 'ne':
                continue
            if t[0] == u and self.pr(t[1], v, c - t[2], facts, b, active, depth + 1):
                return True
        for t in facts:
            if t[0] == 'ne' and ((t[1], t[2]) == (u, v) and c == t[3] - 1 or (t[2], t[1]) == (u, v) and c == -t[3] - 1):
                rest = [x for x in facts if x != t]
                if self.pr(u, v, c + 1, rest, b, {k: w for k, w in active.items() if k != key}, depth + 1):
                    return True
        for t in facts:
            # u != w + k and u <= w + k  =>  u <= w + k - 1
            if t[0] == 'ne' and u in (t[1], t[2]) and v not in (t[1], t[2]):
                w, k = (t[2], t[3]) if t[1] == u else (t[1], -t[3])
                if w != Z and self.pr(w, v, c - (k - 1), facts, b, active, depth + 1) and \
                        self.pr(u, w, k - 1, facts, b, active, depth + 1):
                    return True
            if t[0] == 'ne' and v != Z and v in (t[1], t[2]) and u not in (t[1], t[2]):
                # v != w + k and w + k <= v  =>  w + k + 1 <= v
                w, k = (t[2], t[3]) if t[1] == v else (t[1], -t[3])
                if w != Z and self.pr(u, w, c + k + 1, facts, b, active, depth + 1) and \
                        self.pr(w, v, -k, facts, b, active, depth + 1):
                    return True
        for x, y, k in self.intrinsic(u):
            if x == u and self.pr(y, v, c - k, facts, b, active, depth + 1):
                return True
        for x, y, k in self.intrinsic(v):
            if y == v and self.pr(u, x, c - k, facts, b, active, depth + 1):
                return True
        # sums of two things
        if u[0] == '+' or v[0] == '+':
            if v[0] == '+':
                for p, q in ((v[1], v[2]), (v[2], v[1])):
                    if self.nonneg(q, facts, b) and self.pr(u, p, c, facts, b, active, depth + 1):
                        return True
        if u[0] == '+':
            # a + d - v <= c with a - (x - d) <= k known
            for a, d in ((u[1], u[2]), (u[2], u[1])):
                if a[0] == '-' and a[2] == d and self.pr(a[1], v, c, facts, b, active, depth + 1):
                    return True
                for t in list(facts) + self.intrinsic(a):
                    if t[0] == a and isinstance(t[1], tuple) and t[1][0] == '-' and t[1][2] == d and \
                            self.pr(t[1][1], v, c - t[2], facts, b, active, depth + 1):
                        return True
                # a <= (v - d) + c, where v - d is known not to wrap
                m = ('-', v, d)
                if a != m and any(m in t for t in facts) and self.pr(a, m, c, facts, b, active, depth + 1) and \
                        self.pr(d, v, 0, facts, b, active, depth + 1):
                    return True
        if u != Z and c == -1:
            m = ('-', v, u)
            if any(m in t for t in facts) and self.pr(Z, m, c, facts, b, active, depth + 1) and \
                    self.pr(u, v, 0, facts, b, {k: w for k, w in active.items() if k != key}, depth + 1):
                return True
        if u[0] == '-':
            # (x - y) - v <= c with y >= 0
            if self.nonneg(u[2], facts, b) and self.pr(u[1], v, c, facts, b, active, depth + 1):
                return True
            if v == Z and self.pr(u[1], u[2], c, facts, b, active, depth + 1):
                return True
        if v[0] == '-' and u == Z and self.pr(v[2], v[1], c, facts, b, active, depth + 1):
            return True
        if v[0] == '*' and v[3] >= 2:
            x, o, k = v[1], v[2], v[3]
            # (x + o) * k >= (x + o) + (k - 1) when x + o >= 1, >= x + o when x + o >= 0
            if self.pr(Z, x, o - 1, facts, b, active, depth + 1):
                if self.pr(u, x, c + o + (k - 1), facts, b, active, depth + 1):
                    return True
            elif self.pr(Z, x, o, facts, b, active, depth + 1):
                if self.pr(u, x, c + o, facts, b, active, depth + 1):
                    return True
        if u[0] == '/' and u[4] in ('udiv', 'lshr', 'sdiv', 'ashr'):
            if self.nonneg(u[1], facts, b) and self.pr(u[1], v, c - u[2], facts, b, active, depth + 1):
                return True
        if v[0] == '/' and u == Z and c >= 0 and self.pr(Z, v[1], v[2], facts, b, active, depth + 1):
            return True
        # selects
        for n, left in ((u, True), (v, False)):
            if n[0] == 'v' and f.insts[n[1]].op == 'select':
                i = f.insts[n[1]]
                ok = True
                for arm, truth in ((i.o[1], True), (i.o[2], False)):
                    a, o = self.node(arm)
                    fs = facts + self.cond_facts(i.o[0], truth)
                    r = self.pr(a, v, c - o, fs, b, active, depth + 1) if left else \
                        self.pr(u, a, c + o, fs, b, active, depth + 1)
                    if not r:
                        ok = False
                        break
                if ok:
                    return True
        # merges
        if not early and self.merge(u, v, c, b, active, depth, turns):
            return True
        for t in facts:
            if t[0] == 'ne':
                continue
            if t[1] == v and self.pr(u, t[0], c - t[2], facts, b, active, depth + 1):
                return True
        return False

    def merge(self, u, v, c, b, active, depth, turns):
        """one way in at a time"""
        f = self.f
        for n, other in ((u, v), (v, u)):
            B = self.phi_block(n)
            if B is None:
                continue
            iu, iv = self.phi_in(u, B), self.phi_in(v, B)
            w = None
            for m, im in ((u, iu), (v, iv)):
                if im is None and m != Z:
                    w = self.where(m)
                    if w is not None and (w == B or not f.dominates(w, B)):
                        break
            else:
                ok = True
                active['turns'] = turns + 1
                for pb in f.preds()[B]:
                    if pb not in f.idom():
                        continue
                    nu, ou = (iu[pb] if iu else (u, 0))
                    nv, ov = (iv[pb] if iv else (v, 0))
                    # leave what is still known: facts about values from before the merge
                    fs = self.edge_facts(pb, B)
                    if not self.pr(nu, nv, c - ou + ov, fs, pb, active, depth + 1):
                        ok = False
                        break
                active['turns'] = turns
                if ok:
                    return True
        return False

    def nonneg(self, n, facts, b):
        if n in (('busy',),):
            return False
        k = ('nn', n, b)
        if k in self.stamp:
            return self.stamp[k]
        self.stamp[k] = False
        d, self.deep = self.deep, 40
        r = self.pr(Z, n, 0, facts, b, {}, 20)
        self.deep = d
        self.stamp[k] = r
        return r
