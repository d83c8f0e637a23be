"""Symbolic byte accounting for the muxer.

Two views of the same code are extracted from the SSA form and compared:
  * lin(value): a size value as a sum of guarded items (element sizes, constants, lengths),
  * emitted(function): the ordered, guarded items the function writes.
Items carry the branch conditions they depend on and the loops they are repeated by.  Terms are
written in the frame of the root function (callees are expanded, arguments substituted), with
casts dropped and accessors expanded, so equal text means equal value.  Anything not understood
becomes a wildcard, and a comparison that meets a wildcard gives no verdict.
"""
import ir

NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
FNEG = {'oeq': 'une', 'une': 'oeq', 'ogt': 'ule', 'ule': 'ogt', 'olt': 'uge', 'uge': 'olt', 'oge': 'ult',
        'ult': 'oge', 'ole': 'ugt', 'ugt': 'ole', 'one': 'ueq', 'ueq': 'one'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult',
        'ule': 'uge', 'uge': 'ule'}
WILD = ('?',)


class Unknown(Exception):
    pass


def has_wild(t):
    if t == WILD:
        return True
    return isinstance(t, (tuple, frozenset)) and any(has_wild(x) for x in t)


class Frame:
    """a function instance: arguments bound to terms of the root frame"""

    def __init__(self, an, fn, args, dyn, key=(), guards=(), loops=(), depth=0, up=None):
        self.an, self.fn, self.args, self.dyn = an, fn, args, dyn
        self.up = up                # (caller frame, call instruction)
        self.key, self.guards, self.loops, self.depth = key, tuple(guards), tuple(loops), depth
        self.memo = {}
        self.linmemo = {}
        self.active = set()
        self.T = ir.terms(fn)
        self._reach = None

    # ---- reachable blocks under the bound arguments (null writer, constants)
    def const_cond(self, op):
        # only conditions over arguments and constants: values that need no control flow
        st, n = [op], 0
        while st:
            v = st.pop()
            n += 1
            if v[0] == 'i':
                i = self.fn.inst(v)
                if i.op not in ('icmp', 'xor', 'zext', 'trunc', 'and', 'freeze') or n > 8:
                    return None
                st += i.o
        t = self.cond(op, True)
        if t in (True, False):
            return t
        return None

    def reach(self):
        if self._reach is None:
            self._reach = set()
            st = [0]
            while st:
                b = st.pop()
                if b in self._reach:
                    continue
                self._reach.add(b)
                t = self.fn.blocks[b][-1]
                ss = t.succ or []
                if t.op == 'br' and t.o:
                    c = self.const_cond(t.o[0])
                    if c is not None:
                        ss = [ss[0 if c else 1]]
                st += ss
        return self._reach

    # ---- terms
    def t(self, v, depth=0):
        if v in self.memo:
            return self.memo[v]
        if depth > 40:
            return WILD
        self.memo[v] = WILD
        r = self._t(v, depth + 1)
        self.memo[v] = r
        return r

    def path(self, v, depth):
        """term of the object at address v"""
        if v[0] == 'g':
            return ('glob', v[1])
        base, names, owner, ft, var = self.T.member(v)
        if base[0] == 'i' and self.fn.inst(base).op == 'alloca' and not names and not var:
            return WILD
        b = self.t(base, depth)
        for n in names:
            b = ('.', b, n)
        for x, s in var:
            b = ('[]', b, self.t(x, depth))
        return b

    def _t(self, v, depth):
        f = self.fn
        h = v[0]
        if h == 'k':
            return ('k', abs(int(v[1])) if len(v) > 2 and v[2] == 1 else int(v[1]))
        if h in ('n', 'z'):
            return ('k', 0)
        if h == 'fp':
            return ('fp', v[1])
        if h == 'a':
            return self.args[v[1]] if v[1] < len(self.args) else WILD
        if h == 'g':
            return ('glob', v[1])
        if h != 'i':
            return tuple(str(x) for x in v)
        i = f.inst(v)
        op = i.op
        if op == 'load':
            base, off, var = self.T.split(i.o[0])
            if base[0] == 'i' and f.inst(base).op == 'alloca':
                return WILD
            return self.path(i.o[0], depth)
        if op == 'getelementptr':
            return ('&', self.path(v, depth))
        if op == 'alloca':
            return ('loc', self.key + (i.id,))
        if op in ('call', 'invoke'):
            g = self.callee(i)
            if g is not None and g.repo:
                e = self.an.accessor(g)
                if e is not None and self.depth < 12:
                    fr = Frame(self.an, g, [self.t(x, depth) for x in i.o], self.dyn_of(g, i), self.key + (i.id,),
                               depth=self.depth + 1)
                    r = fr.t(e)
                    if not has_wild(r):
                        return r
                return ('call', g.clean) + tuple(self.t(x, depth) for x in i.o)
            return ('call', f.prog.callee_name(i)) + tuple(self.t(x, depth) for x in i.o)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'uitofp', 'sitofp', 'fpext',
                  'fptrunc', 'fptosi', 'fptoui'):
            return self.t(i.o[0], depth)
        if op == 'icmp' or op == 'fcmp':
            c = self.cond(v, True)
            return c if not isinstance(c, bool) else ('k', int(c))
        if op == 'select':
            return ('sel', self.t(i.o[0], depth), self.t(i.o[1], depth), self.t(i.o[2], depth))
        if op == 'phi':
            r = self.induction(i)
            if r is not None:
                return r
            r = self.phi_select(i, depth)
            return r if r is not None else WILD
        return (op,) + tuple(self.t(x, depth) for x in i.o)

    def induction(self, i):
        """loop counter i = 0..bound-1 -> ('ix', bound)"""
        L = self.fn.loops()
        if i.bb not in L:
            return None
        b = self.bound(i.bb)
        if b is None:
            return None
        phi, bt = b
        if phi.id == i.id:
            return ('ix',)
        return None

    def bound(self, header):
        """(counter phi, bound term) of a loop counting from 0 (or 1) by 1"""
        key = ('bound', header)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        f = self.fn
        body = f.loops()[header]
        res = None
        for i in f.blocks[header]:
            if i.op != 'phi' or not i.ty.startswith('i') or len(i.phi) != 2:
                continue
            init = [v for v, b in i.phi if b not in body]
            back = [v for v, b in i.phi if b in body]
            if len(init) != 1 or len(back) != 1 or back[0][0] != 'i':
                continue
            inc = f.inst(back[0])
            if not (inc.op == 'add' and ('i', i.id) in inc.o and any(x[0] == 'k' and int(x[1]) == 1 for x in inc.o)):
                continue
            init = self.t(init[0])
            if init not in (('k', 0), ('k', 1)):
                continue
            # exit test: a branch in the loop with one successor outside comparing the counter
            for b in sorted(body):
                t = f.blocks[b][-1]
                if t.op != 'br' or not t.o or all(s in body for s in t.succ):
                    continue
                if t.o[0][0] != 'i':
                    continue
                c = f.inst(t.o[0])
                if c.op != 'icmp':
                    continue
                a, bb = c.o
                pr = c.pred
                def isctr(x):
                    while x[0] == 'i' and f.inst(x).op in ('zext', 'sext', 'trunc'):
                        x = f.inst(x).o[0]
                    return x in (('i', i.id), ('i', inc.id))
                def ctr_is_inc(x):
                    while x[0] == 'i' and f.inst(x).op in ('zext', 'sext', 'trunc'):
                        x = f.inst(x).o[0]
                    return x == ('i', inc.id)
                if not isctr(a):
                    if not isctr(bb):
                        continue
                    a, bb = bb, a
                    pr = SWAP[pr]
                stay = t.succ[0] in body
                if not stay:
                    pr = NEG[pr]
                bt = self.t(bb)
                # stay while counter pr bound; normalise to number of iterations
                n = None
                zero = init == ('k', 0)
                if pr in ('slt', 'ult', 'ne'):
                    n = bt if zero else ('sub', bt, ('k', 1))
                elif pr in ('sle', 'ule'):
                    n = ('add', bt, ('k', 1)) if zero else bt
                if n is not None and ctr_is_inc(a):
                    n = None      # rotated loop: test after the increment
                    if pr in ('slt', 'ult', 'ne') and zero:
                        n = bt
                if n is not None:
                    res = (i, n)
                    break
            if res:
                break
        self.memo[key] = res
        return res

    def phi_select(self, i, depth):
        """two-way merge of a simple diamond -> select term"""
        f = self.fn
        if len(i.phi) != 2 or i.bb in f.loops():
            return None
        (v1, b1), (v2, b2) = i.phi
        R = self.reach()
        if b1 not in R:
            return self.t(v2, depth)
        if b2 not in R:
            return self.t(v1, depth)
        d = f.idom()[i.bb]
        t = f.blocks[d][-1]
        if t.op != 'br' or not t.o:
            return None
        for x, y, vx, vy in ((b1, b2, v1, v2), (b2, b1, v2, v1)):
            def side(b, s):
                return b == s or (b == d and s == i.bb) or (b != d and f.dominates(s, b) and s != i.bb)
            if side(x, t.succ[0]) and side(y, t.succ[1]):
                c = self.cond(t.o[0], True)
                tx, ty = self.t(vx, depth), self.t(vy, depth)
                if c is True:
                    return tx
                if c is False:
                    return ty
                if tx == ty:
                    return tx
                return ('sel', c, tx, ty)
        return None

    # ---- conditions
    def cond(self, v, truth):
        """canonical literal of (v == truth): True/False when decided, else a term"""
        if v[0] == 'k':
            return bool(int(v[1])) == truth
        i = self.fn.inst(v)
        if i is None:
            return canon_cmp('ne', self.t(v), ('k', 0), truth)
        if i.op == 'xor' and i.ty == 'i1' and i.o[1][0] == 'k':
            return self.cond(i.o[0], not truth)
        if i.op == 'icmp':
            return canon_cmp(i.pred, self.t(i.o[0]), self.t(i.o[1]), truth)
        if i.op == 'fcmp':
            p = i.pred if truth else FNEG.get(i.pred, '!' + str(i.pred))
            return ('f' + str(p), self.t(i.o[0]), self.t(i.o[1]))
        t = self.t(v)
        if t[0] in ('cmp',):
            return t if truth else neg(t)
        if t[0] in ('foeq', 'fune', 'fogt', 'fule', 'folt', 'fuge', 'foge', 'fult', 'fole', 'fugt'):
            return t if truth else ('f' + FNEG[t[0][1:]],) + t[1:]
        return canon_cmp('ne', t, ('k', 0), truth)

    def facts(self, b):
        """canonical literals that hold in block b, without those whose negation only leads to failure"""
        key = ('facts', b)
        if key in self.memo:
            return self.memo[key]
        out = []
        f = self.fn
        d, pr = f.idom(), f.preds()
        R = self.reach()
        x = b
        while True:
            ps = [p for p in pr[x] if p in d and p in R]
            if len(ps) == 1 and ps[0] != x:
                out += self.edge(ps[0], x)
            p = d.get(x)
            if p is None or p == x:
                break
            x = p
        self.memo[key] = out
        return out

    def edge(self, b, s):
        f = self.fn
        out = []
        for e in f.edge_conds(b, s):
            if e[0] == 'c':
                t = f.blocks[b][-1]
                other = t.succ[1] if t.succ[0] == s else t.succ[0]
                if self.fails(other):
                    continue
                if self.loop_exit(b, s, other):
                    continue
                out += flat(self.cond(e[1], e[2]))
            else:
                out.append(('sw', self.t(e[1]), e[2], e[3]))
        return out

    def loop_exit(self, b, s, other):
        """the branch that stays in / leaves a counted loop is the loop bound, not a guard"""
        for h, body in self.fn.loops().items():
            if b in body and (s in body) != (other in body):
                if s not in body or b == h or self.bound(h) is not None:
                    return True
        return False

    def fails(self, b):
        """every return reachable from b yields a failing constant"""
        key = ('fails', b)
        if key in self.memo:
            return self.memo[key]
        f = self.fn
        res = False
        if f.rty != 'void':
            res = True
            seen = set()
            st = [(b, None)]
            n = 0
            while st and res:
                x, pred = st.pop()
                if (x, pred) in seen:
                    continue
                seen.add((x, pred))
                n += 1
                if n > 400:
                    res = False
                t = f.blocks[x][-1]
                if t.op == 'ret':
                    v = t.o[0]
                    if v[0] == 'i' and f.inst(v).op == 'phi' and f.inst(v).bb == x:
                        v = [y for y, pb in f.inst(v).phi if pb == pred]
                        v = v[0] if v else ('?',)
                    ok = v[0] == 'k' and int(v[1]) <= 0 and not (f.rty == 'i1' and int(v[1]) != 0)
                    # status functions: success is 0
                    if self.an.status_fn(f):
                        ok = v[0] == 'k' and int(v[1]) != 0
                    if not ok:
                        res = False
                for s in t.succ or []:
                    st.append((s, x))
            if res and b in f.loops():
                res = res
        self.memo[key] = res
        return res

    def loops_of(self, b):
        out = []
        for h, body in sorted(self.fn.loops().items(), key=lambda kv: -len(kv[1])):
            if b in body:
                bd = self.bound(h)
                out.append(bd[1] if bd else WILD)
        return tuple(out)

    # ---- callees
    def callee(self, i):
        p = self.fn.prog
        if i.callee:
            return p.fn.get(i.callee)
        ts = p.targets(i)
        vm = p.vmethod(i)
        if vm and self.dyn and i.o and self.t(i.o[0]) == self.args[0]:
            # virtual call on the root object: most derived override
            r = most_derived(p, ts, self.dyn)
            if r is not None:
                return r
        if len(ts) == 1:
            return ts[0]
        if vm and i.o and ts and all(t.repo and self.an.inns(t) for t in ts):
            r = self.t(i.o[0])
            cls = self.an.dynmap.get(r)
            if cls is None:
                self.an.pending.setdefault(r, set()).update(t.cls for t in ts)
                return None
            return most_derived(p, ts, cls)
        return None

    def dyn_of(self, g, i):
        if not i.o:
            return None
        r = self.t(i.o[0])
        if self.args and r == self.args[0] and g.cls:
            return self.dyn
        return self.an.dynmap.get(r)

    def sub(self, g, i):
        return Frame(self.an, g, [self.t(x) for x in i.o], self.dyn_of(g, i), self.key + (i.id,),
                     self.guards + tuple(self.facts(i.bb)), self.loops + self.loops_of(i.bb), self.depth + 1, (self, i))

    # ---- size values
    def lin(self, v):
        """{item key: (coef, atom, guards, loops)}"""
        if v in self.linmemo:
            return self.linmemo[v]
        r = self._lin(v)
        self.linmemo[v] = r
        return r

    def item(self, key, atom, b, coef=1):
        return {key: (coef, atom, frozenset(self.guards) | frozenset(self.facts(b)), self.loops + self.loops_of(b))}

    def leaf(self, v, b):
        t = self.t(v)
        if t[0] == 'k':
            if t[1] == 0:
                return {}
            return {('k',) + self.key + (v,): (t[1], ('one',), frozenset(self.guards), self.loops)}
        return {self.key + ('v', v): (1, ('len', t), frozenset(self.guards), self.loops)}

    def _lin(self, v):
        f = self.fn
        if v[0] == 'k':
            k = int(v[1])
            return {} if k == 0 else {('k',) + self.key + (v,): (k, ('one',), frozenset(self.guards), self.loops)}
        if v[0] == 'a' and self.up and v[1] < len(self.up[1].o):
            return self.up[0].lin(self.up[1].o[v[1]])
        if v[0] != 'i':
            return self.leaf(v, 0)
        i = f.inst(v)
        op = i.op
        if op in ('zext', 'sext', 'trunc', 'freeze'):
            return self.lin(i.o[0])
        if op == 'add':
            return addlin(self.lin(i.o[0]), self.lin(i.o[1]), 1)
        if op == 'sub':
            return addlin(self.lin(i.o[0]), self.lin(i.o[1]), -1)
        if op == 'select':
            c = self.cond(i.o[0], True)
            if c is True:
                return self.lin(i.o[1])
            if c is False:
                return self.lin(i.o[2])
            a, b = self.lin(i.o[1]), self.lin(i.o[2])
            return merge([(a, flat(c)), (b, flat(neg(c)))])
        if op == 'phi':
            return self.lin_phi(i)
        if op in ('call', 'invoke'):
            return self.lin_call(i)
        if op == 'load':
            s = self.local_store(i)
            if s is not None:
                return self.lin(s.o[0])
        return self.leaf(v, i.bb)

    def local_store(self, ld):
        """the store to a local variable or array slot that a load reads"""
        f = self.fn
        base, off, var = self.T.split(ld.o[0])
        if base[0] != 'i' or f.inst(base).op != 'alloca':
            return None
        idx = tuple(self.t(x) for x, _ in var)
        if has_wild(idx):
            return None
        ss = []
        for u in f.all():
            if u.op == 'store':
                b2, o2, v2 = self.T.split(u.o[1])
                if b2 == base:
                    if (o2, tuple(self.t(x) for x, _ in v2)) != (off, idx):
                        if v2 or o2 == off or var:
                            return None
                        continue
                    ss.append(u)
            elif u.op in ('call', 'invoke') and not (u.callee or '').startswith('llvm.lifetime') and \
                    any(x[0] == 'i' and self.T.split(x)[0] == base for x in u.o):
                return None
        doms = [s for s in ss if f.inst_dominates(s, ld)]
        same = [s for s in doms if self.loops_of(s.bb) == self.loops_of(ld.bb)] if not var else doms
        pool = same or ss
        last = [s for s in pool if all(t is s or f.inst_dominates(t, s) for t in pool)]
        if len(last) != 1:
            return None
        if not same and not var:
            return None
        return last[0]

    def lin_phi(self, i):
        f = self.fn
        R = self.reach()
        L = f.loops()
        if i.bb in L:
            body = L[i.bb]
            if i.id in self.active:
                return {('self', i.id) + self.key: (1, ('self', i.id), frozenset(), ())}
            self.active.add(i.id)
            try:
                init = [v for v, b in i.phi if b not in body and b in R]
                back = [v for v, b in i.phi if b in body and b in R]
                if len(init) != 1:
                    raise Unknown('loop with several entries')
                r = dict(self.lin(init[0]))
                for v in back:
                    saved = dict(self.linmemo)
                    x = dict(self.lin(v))
                    self.linmemo = saved
                    s = x.pop(('self', i.id) + self.key, None)
                    if s is None or s[0] != 1 or s[2]:
                        raise Unknown('value is not accumulated')
                    for k, (c, a, g, lp) in x.items():
                        if not lp or len(lp) == len(self.loops):
                            # a constant or value added once per iteration
                            lp = self.loops + self.loops_of(i.bb)
                        if k in r:
                            raise Unknown('value reused across a loop')
                        r[k] = (c, a, g, lp)
                return r
            finally:
                self.active.discard(i.id)
        inc = [(v, b) for v, b in i.phi if b in R]
        if len(inc) == 1:
            return self.lin(inc[0][0])
        d = f.idom()[i.bb]
        base = set(map(repr, self.facts(d)))
        parts = []
        for v, b in inc:
            fs = [x for x in self.facts(b) + self.edge(b, i.bb) if repr(x) not in base]
            parts.append((self.lin(v), fs))
        return merge(parts)

    def lin_call(self, i):
        p = self.fn.prog
        g = self.callee(i)
        if g is None or not g.repo:
            return self.leaf(i.ref, i.bb)
        a = self.an.size_atom(g, [self.t(x) for x in i.o], self, i)
        if a is not None:
            return self.item(self.key + (i.id,), a, i.bb)
        if self.an.is_size_fn(g) and self.depth < 12:
            return self.sub(g, i).ret_lin()
        return self.leaf(i.ref, i.bb)

    def ret_lin(self):
        """size returned (failure constants aside)"""
        f = self.fn
        R = self.reach()
        outs = []
        for b in sorted(R):
            t = f.blocks[b][-1]
            if t.op != 'ret' or not t.o:
                continue
            v = t.o[0]
            if v[0] == 'i' and f.inst(v).op == 'phi' and f.inst(v).bb == b and len(f.blocks[b]) <= 3:
                ph = f.inst(v)
                vs = []
                fail = [(x, pb) for x, pb in ph.phi if pb in R and x[0] == 'k' and int(x[1]) == 0]
                okv = [(x, pb) for x, pb in ph.phi if pb in R and not (x[0] == 'k' and int(x[1]) == 0)]
                if len(okv) == 1 and (len(fail) > 1 or self.an.emits(f)):
                    vs = [okv[0][0]]
                elif okv and self.an.emits(f):
                    vs = [x for x, _ in okv]
                else:
                    vs = [v]
                outs += vs
            else:
                outs.append(v)
        ls = [self.lin(v) for v in outs if not (v[0] == 'k' and int(v[1]) == 0 and len(outs) > 1)]
        if not ls:
            return {}
        if any(canon(x) != canon(ls[0]) for x in ls[1:]):
            raise Unknown('several different sizes returned by ' + f.clean)
        return ls[0]

    # ---- writes
    def emitted(self):
        """ordered [(atom, guards, loops, inst, frame)] written by this function"""
        out = []
        f = self.fn
        for b in self.order():
            for i in f.blocks[b]:
                if i.op not in ('call', 'invoke'):
                    continue
                if i.callee and i.callee.startswith('llvm.'):
                    continue
                g = self.callee(i)
                vm = f.prog.vmethod(i) if not i.callee else None
                if vm and vm[0] and vm[0].endswith('IMkvWriter'):
                    if vm[1] == 'Write':
                        out.append((('lin', i.o[2]), i, self, None))
                    elif vm[1] == 'Position' and self.depth == 0:
                        out.append((('pos', i.id), i, self, None))
                    continue
                if g is None or not g.repo:
                    if g is None and not i.callee and any(self.an.emits(t) for t in f.prog.targets(i) if t.repo):
                        out.append((WILD, i, self, None))
                    continue
                a = self.an.write_atom(g, [self.t(x) for x in i.o], self, i)
                if a is not None:
                    out.append((a, i, self, i.o[2] if a[0] == 'M' else None))
                elif self.an.emits(g) and self.depth < 12:
                    fr = self.sub(g, i)
                    out += fr.emitted()
        return out

    def order(self):
        """reverse post-order in which a loop body precedes what follows the loop"""
        f = self.fn
        R = self.reach()
        L = f.loops()
        seen, out = {0}, []

        def depth(b):
            return sum(1 for body in L.values() if b in body)

        def ss(b):
            return iter(sorted((x for x in dict.fromkeys(f.succs(b)) if x in R), key=depth))
        st = [(0, ss(0))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, ss(s)))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def full(self, i):
        return frozenset(self.guards) | frozenset(self.facts(i.bb)), self.loops + self.loops_of(i.bb)


def most_derived(p, ts, cls):
    while cls:
        for t in ts:
            if t.repo and t.cls == cls:
                return t
        b = p.bases(cls)
        cls = b[0][0] if b else None
    return None


def boolean(t):
    """(op, parts) of a boolean select: and/or of two literals"""
    if t[0] == 'sel':
        _, c, a, b = t
        if a == ('k', 1):
            return 'or', (truthy(c), truthy(b))
        if b == ('k', 0):
            return 'and', (truthy(c), truthy(a))
        if a == ('k', 0):
            return 'and', (neg(truthy(c)), truthy(b))
        if b == ('k', 1):
            return 'or', (neg(truthy(c)), truthy(a))
    return None


def truthy(t):
    if t[0] in ('cmp', 'not') or t[0][:1] == 'f' and t[0][1:] in FNEG:
        return t
    return canon_cmp('ne', t, ('k', 0), True)


def flat(c):
    """literals of a conjunction"""
    if isinstance(c, bool):
        return []
    truth = True
    t = c
    if c[0] == 'cmp' and c[1] in ('eq', 'ne') and c[3] == ('k', 0):
        t, truth = c[2], c[1] == 'ne'
    elif c[0] == 'not':
        t, truth = c[1], False
    if isinstance(t, tuple) and t and t[0] == 'sel':
        b = boolean(t)
        if b:
            op, (x, y) = b
            if (op == 'and') == truth:
                if truth:
                    return flat(x) + flat(y)
                return flat(neg(x)) + flat(neg(y))
            parts = []
            for z in (x, y):
                parts.append(frozenset(flat(z if truth else neg(z))))
            return [('or', frozenset(parts))]
    return [c]


def neg(c):
    if isinstance(c, bool):
        return not c
    if c[0] == 'not':
        return c[1]
    if c[0][:1] == 'f' and c[0][1:] in FNEG:
        return ('f' + FNEG[c[0][1:]],) + c[1:]
    if c[0] == 'cmp':
        return canon_cmp(c[1], c[2], c[3], False)
    return ('not', c)


def canon_cmp(pred, a, b, truth):
    if a[0] == 'k' and b[0] != 'k':
        a, b, pred = b, a, SWAP[pred]
    if not truth:
        pred = NEG[pred]
    if a[0] == 'k' and b[0] == 'k':
        x, y = a[1], b[1]
        m = (1 << 64) - 1
        if pred[0] == 'u':
            x, y = x & m, y & m
        op = pred if pred in ('eq', 'ne') else pred[1:]
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[op]
    if b == ('k', 0) and a[0] == 'obj' and pred in ('eq', 'ne', 'ugt', 'ule'):
        return pred in ('ne', 'ugt')
    # boolean sub-terms
    if b == ('k', 0) and a[0] in ('cmp', 'not') or (b == ('k', 0) and a[0].startswith('f') and a[0][1:] in FNEG):
        if pred == 'ne':
            return a
        if pred == 'eq':
            if a[0] == 'not':
                return a[1]
            if a[0] == 'cmp':
                return canon_cmp(a[1], a[2], a[3], False)
            return ('f' + FNEG[a[0][1:]],) + a[1:]
    if b[0] == 'k':
        if pred == 'ugt' and b[1] == 0 or pred == 'uge' and b[1] == 1:
            pred, b = 'ne', ('k', 0)
        elif pred == 'ule' and b[1] == 0 or pred == 'ult' and b[1] == 1:
            pred, b = 'eq', ('k', 0)
        elif pred in ('ugt', 'sgt'):
            pred, b = pred[0] + 'ge', ('k', b[1] + 1)
        elif pred in ('ule', 'sle'):
            pred, b = pred[0] + 'lt', ('k', b[1] + 1)
        if a[0] == 'and' and len(a) == 3 and a[2][0] == 'k' and pred == 'ne' and b[1] == a[2][1]:
            b = ('k', 0)
            pred = 'eq' if False else 'ne'
    elif repr(a) > repr(b):
        a, b, pred = b, a, SWAP[pred]
    return ('cmp', pred, a, b)


def addlin(a, b, sign):
    r = dict(a)
    for k, (c, at, g, l) in b.items():
        if k in r:
            r[k] = (r[k][0] + sign * c,) + r[k][1:]
            if r[k][0] == 0:
                del r[k]
        else:
            r[k] = (sign * c, at, g, l)
    return r


def merge(parts):
    keys = {}
    for n, (l, fs) in enumerate(parts):
        for k in l:
            keys.setdefault(k, []).append(n)
    r = {}
    for k, ns in keys.items():
        vals = [parts[n][0][k] for n in ns]
        if len(ns) == len(parts) and all(v[0] == vals[0][0] for v in vals):
            r[k] = vals[0]
        elif len(ns) == 1:
            c, a, g, l = vals[0]
            r[k] = (c, a, g | frozenset(parts[ns[0]][1]), l)
        else:
            # several, not all: keep the facts common to those branches
            if any(v[0] != vals[0][0] for v in vals):
                raise Unknown('different multiples merge')
            c, a, g, l = vals[0]
            common = frozenset(parts[ns[0]][1])
            for n in ns[1:]:
                common &= frozenset(parts[n][1])
            if k[:1] == ('self',):
                raise Unknown('accumulator merge')
            r[k] = (c, a, g | common, l)
    return r


ONE = ('one',)


def units(a):
    """[(count, atom)]: constant lengths become multiples of one byte, a master header its id and its size field"""
    if a[0] == 'len' and a[1][0] == 'k':
        return [(a[1][1], ONE)]
    if a[0] == 'U' and a[1][0] == 'k':
        return [(max(1, (a[1][1].bit_length() + 7) // 8), ONE)]
    if a[0] == 'M':
        idl = [(a[1], ONE)] if isinstance(a[1], int) else [(1, ('U', a[1]))]
        return idl + units(('C', a[2]))
    if a[0] == 'C' and isinstance(a[1], frozenset):
        ks = list(a[1])
        if all(k[0] == ONE and not k[1] and not k[2] for k, c in ks):
            n, v = 1, sum(c for k, c in ks)
            while v > (1 << 7 * n) - 2:
                n += 1
            return [(n, ONE)]
        # the coded form of a plain field: the track number of a block (at most 126: one byte, see C12)
        if len(ks) == 1 and ks[0][1] == 1 and ks[0][0][0][0] == 'len' and ks[0][0][0][1][0] == '.':
            return [(1, ONE)]
    return [(1, a)]


def relative(a, g, lp):
    """the size field of a nested element, relative to the conditions it is itself under"""
    if a[0] == 'C' and isinstance(a[1], frozenset):
        acc = {}
        for (x, xg, xl), c in a[1]:
            xg = xg - g
            if xl[:len(lp)] == lp:
                xl = xl[len(lp):]
            x = relative(x, xg | g, lp + xl)
            k = (x, xg, xl)
            acc[k] = acc.get(k, 0) + c
        return ('C', frozenset((k, c) for k, c in acc.items() if c))
    return a


def canon(l):
    """order-free, comparable form of a lin: frozenset of ((atom, guards, loops), coef)"""
    acc = {}
    for c, a, g, lp in l.values():
        for n, x in units(a):
            gg = clean_guards(x if a[0] == 'M' else a, g)
            k = (relative(x, gg, lp), gg, lp)
            acc[k] = acc.get(k, 0) + c * n
    return frozenset((k, c) for k, c in acc.items() if c)


def clin(fr, v):
    try:
        return canon(fr.lin(v))
    except Unknown:
        return WILD


def size_call(t):
    return isinstance(t, tuple) and len(t) > 1 and t[0] == 'call' and t[1].split('::')[-1] in SIZEFN


SIZEFN = set()


def clean_guards(atom, g):
    out = set()
    for x in g:
        # "size is not zero" guards hold whenever anything is written
        if x[0] == 'cmp' and x[1] == 'ne' and x[3] == ('k', 0) and size_call(x[2]):
            continue
        # "the previous write succeeded"
        if x[0] == 'cmp' and x[3] == ('k', 0) and isinstance(x[2], tuple) and x[2][0] == 'call' and \
                x[2][1].split('::')[-1].startswith(('Write', 'Serialize')):
            continue
        # an absent string / buffer has size zero
        if x[0] == 'cmp' and x[1] == 'ne' and x[3] == ('k', 0) and atom[0] == 'E' and atom[1] in 'sb' and x[2] == atom[3]:
            continue
        out.add(x)
    return frozenset(out)


class Analyzer:
    def __init__(self, prog, inns):
        self.prog = prog
        self.inns = inns            # predicate: function belongs to the muxer
        self._emits = None
        self._size = {}
        self._acc = {}
        self.dynmap, self.pending = {}, {}
        for f in prog.repo_fns(inns):
            if self.is_size_fn(f):
                SIZEFN.add(f.bname)

    def status_fn(self, f):
        return f.rty == 'i32'

    def short(self, g):
        return g.clean.split('::')[-1]

    def overload(self, g, skip):
        pt = [x.replace('const ', '').strip() for x in g.ptypes[skip:]]
        sig = []
        for x in pt:
            if x in ('float', 'double'):
                sig.append('f')
            elif x.endswith('char*') and 'unsigned' not in x:
                sig.append('s')
            elif x.endswith('*'):
                sig.append('b')
            elif 'unsigned' in x or x in ('uint64', 'uint64_t', 'mkvmuxer::uint64'):
                sig.append('u')
            else:
                sig.append('i')
        return sig

    def element(self, sig, args):
        """args: id, value...; -> atom"""
        idt = args[0]
        idl = self.idlen(idt)
        kind = sig[1] if len(sig) > 1 else 'd'
        if kind == 'u':
            fixed = args[2] if len(args) > 2 else ('k', 0)
            if fixed == ('k', 0):
                return ('E', 'u', idl, args[1])
            if fixed[0] == 'k':
                return ('E', 'x', idl, fixed)
            return ('E', 'uf', idl, args[1], fixed)
        if kind == 'i':
            return ('E', 'i', idl, args[1])
        if kind == 'f':
            return ('E', 'f', idl)
        if kind == 's':
            return ('E', 's', idl, args[1])
        if kind == 'b':
            return ('E', 'b', idl, args[1], args[2])
        return None

    def idlen(self, t):
        if t[0] == 'k':
            v = t[1] & 0xffffffffffffffff
            return max(1, (v.bit_length() + 7) // 8)
        return t

    def size_atom(self, g, args, fr, i):
        if not self.inns(g):
            return None
        n = g.bname
        if g.cls:
            return None
        if n == 'EbmlElementSize':
            return self.element(self.overload(g, 0), args)
        if n == 'EbmlDateElementSize':
            return ('E', 'd', self.idlen(args[0]))
        if n == 'EbmlMasterElementSize':
            return ('M', self.idlen(args[0]), clin(fr, i.o[1]))
        if n in ('GetUIntSize', 'GetCodedUIntSize', 'GetIntSize'):
            return ('C', clin(fr, i.o[0])) if n == 'GetCodedUIntSize' else ('U' if n == 'GetUIntSize' else 'I', args[0])
        return None

    def write_atom(self, g, args, fr, i):
        if not self.inns(g) or g.cls:
            return None
        n = g.bname
        if n == 'WriteEbmlElement':
            return self.element(self.overload(g, 1), args[1:])
        if n == 'WriteEbmlDateElement':
            return ('E', 'd', self.idlen(args[1]))
        if n == 'WriteEbmlMasterElement':
            return ('M', self.idlen(args[1]), clin(fr, i.o[2]))
        if n == 'WriteID':
            return ('U', args[1])
        if n == 'WriteUInt':
            return ('C', clin(fr, i.o[1]))
        if n in ('SerializeInt', 'WriteUIntSize'):
            return ('lin', i.o[2])
        if n == 'SerializeFloat':
            return ('len', ('k', 4))
        return None

    def is_size_fn(self, g):
        """returns a byte count computed from element sizes"""
        if g.name in self._size:
            return self._size[g.name]
        self._size[g.name] = False
        r = False
        if g.repo and self.inns(g) and g.rty in ('i64', 'i32') and not g.decl:
            for c in g.calls():
                for t in self.prog.targets(c):
                    if t.repo and self.inns(t) and (t.bname in ('EbmlElementSize', 'EbmlMasterElementSize',
                                                               'EbmlDateElementSize', 'GetUIntSize', 'GetCodedUIntSize')
                                                    or self.is_size_fn(t)) and t.name != g.name:
                        r = True
        if g.repo and not g.cls and g.bname in ('EbmlElementSize', 'EbmlMasterElementSize', 'EbmlDateElementSize',
                                                'GetUIntSize', 'GetCodedUIntSize', 'GetIntSize', 'WriteUInt', 'WriteID'):
            r = False
        self._size[g.name] = r
        return r

    def emits(self, g):
        if self._emits is None:
            fns = self.prog.repo_fns(self.inns)
            self._emits = set()
            tg = {f.name: [(c, self.prog.targets(c)) for c in f.calls()] for f in fns}
            for f in fns:
                for c, ts in tg[f.name]:
                    vm = self.prog.vmethod(c) if not c.callee else None
                    if vm and vm[0] and vm[0].endswith('IMkvWriter') and vm[1] == 'Write':
                        self._emits.add(f.name)
            ch = True
            while ch:
                ch = False
                for f in fns:
                    if f.name in self._emits:
                        continue
                    if any(t.name in self._emits for c, ts in tg[f.name] for t in ts):
                        self._emits.add(f.name)
                        ch = True
        return g.name in self._emits

    def accessor(self, g):
        """operand returned by a trivial accessor (one block, no calls with effects), else None"""
        if g.name in self._acc:
            return self._acc[g.name]
        r = None
        if not g.decl and len(g.blocks) == 1:
            b = g.blocks[0]
            if b[-1].op == 'ret' and b[-1].o and not any(x.op == 'store' for x in b) and len(b) <= 14 and not \
                    self.is_size_fn(g):
                r = b[-1].o[0]
        elif not g.decl and len(g.blocks) <= 8 and g.rty == 'ptr' and not g.loops():
            # range-checked getter: null, or the entry
            vals = set()
            for t in g.rets():
                v = t.o[0]
                vs = [x for x, _ in g.inst(v).phi] if v[0] == 'i' and g.inst(v).op == 'phi' else [v]
                vals |= {x for x in vs if x[0] not in ('n', 'z')}
            eff = any(x.op == 'store' for x in g.all()) or any(True for x in g.calls())
            if len(vals) == 1 and not eff:
                r = vals.pop()
        self._acc[g.name] = r
        return r
