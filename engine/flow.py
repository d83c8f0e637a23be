"""Path exploration over abstract values (intervals) on SSA, from a program point to the returns.

Used by the failure-propagation rules: assume a call returned a failing value, follow every
feasible path and look at what the function returns.  No code is executed and no solver is
involved: the abstract domain is the interval domain over constants that occur in the program.
"""
import mod

NEG = (None, -1)
POS = (1, None)
ZERO = (0, 0)
TOP = (None, None)


def meet(a, b):
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    if lo is not None and hi is not None and lo > hi:
        return None
    return (lo, hi)


def subset(a, b):
    return (b[0] is None or (a[0] is not None and a[0] >= b[0])) and \
        (b[1] is None or (a[1] is not None and a[1] <= b[1]))


NEGATE = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
          'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def cmp_eval(pred, a, b):
    """True/False/None for intervals a,b"""
    if pred[0] == 'u':
        # unsigned: only decide when both are known non-negative, or compare with 0
        if not (a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0):
            if b == ZERO and pred in ('uge', 'ult'):
                return pred == 'uge'
            if b == ZERO and pred == 'ugt' and (a[1] is not None and a[1] < 0):
                return True
            if b == ZERO and pred == 'ule' and (a[1] is not None and a[1] < 0):
                return False
            return None
        pred = 's' + pred[1:]
    def lt(x, y):   # x.hi < y.lo
        return x[1] is not None and y[0] is not None and x[1] < y[0]
    def le(x, y):
        return x[1] is not None and y[0] is not None and x[1] <= y[0]
    if pred == 'eq':
        if a[0] is not None and a[0] == a[1] and a == b:
            return True
        if lt(a, b) or lt(b, a):
            return False
        return None
    if pred == 'ne':
        r = cmp_eval('eq', a, b)
        return None if r is None else not r
    if pred == 'slt':
        return True if lt(a, b) else False if le(b, a) else None
    if pred == 'sge':
        return True if le(b, a) else False if lt(a, b) else None
    if pred == 'sgt':
        return cmp_eval('slt', b, a)
    if pred == 'sle':
        return cmp_eval('sge', b, a)
    return None


def refine(pred, a, b):
    """interval a refined by (a pred b)"""
    if pred == 'eq':
        return meet(a, b)
    if pred == 'ne':
        if b[0] is not None and b[0] == b[1]:
            k = b[0]
            if a == (k, k):
                return None
            if a[0] == k:
                return (k + 1, a[1])
            if a[1] == k:
                return (a[0], k - 1)
        return a
    if pred == 'slt':
        return meet(a, (None, None if b[1] is None else b[1] - 1))
    if pred == 'sle':
        return meet(a, (None, b[1]))
    if pred == 'sgt':
        return meet(a, (None if b[0] is None else b[0] + 1, None))
    if pred == 'sge':
        return meet(a, (b[0], None))
    if pred == 'ugt' and b == ZERO:
        return refine('ne', a, b)
    if pred == 'ule' and b == ZERO:
        return meet(a, ZERO)
    if pred in ('ult', 'ule') and b[1] is not None and b[0] is not None and b[0] >= 0:
        if a[0] is not None and a[0] >= 0:
            return meet(a, (0, b[1] - (1 if pred == 'ult' else 0)))
    return a


def bits(ty):
    if ty.startswith('i') and ty[1:].isdigit():
        return int(ty[1:])
    return 64


class TooMany(Exception):
    pass


class Explorer:
    LIMIT = 60000
    only = None
    bfs = False
    edgeok = None
    slim = False        # forget what was read from memory once the value is dead

    def __init__(self, fn, callmodel=None, keep_mem=True):
        self.fn = fn
        fn.blocks
        self.callmodel = callmodel
        self.live = self._liveness()

    def _liveness(self):
        f = self.fn
        if 'live' in f._cache:
            return f._cache['live']
        n = len(f.blocks)
        use, de, phiuse = [set() for _ in range(n)], [set() for _ in range(n)], [set() for _ in range(n)]
        for bi, b in enumerate(f.blocks):
            for i in b:
                for x, pb in i.phi:
                    if x[0] == 'i':
                        phiuse[pb].add(x[1])
                for x in i.o + ([i.cv] if i.cv else []):
                    if x[0] == 'i' and x[1] not in de[bi]:
                        use[bi].add(x[1])
                de[bi].add(i.id)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for bi in range(n - 1, -1, -1):
                out = set(phiuse[bi])
                for s in f.succs(bi):
                    out |= live[s]
                new = use[bi] | (out - de[bi])
                if new != live[bi]:
                    live[bi] = new
                    ch = True
        f._cache['live'] = live
        return live

    # --- values
    def root(self, v, st):
        al = st['alias']
        n = 0
        while v[0] == 'i' and v[1] in al and n < 50:
            v = al[v[1]]
            n += 1
        return v

    def val(self, v, st):
        v = self.root(v, st)
        if v[0] == 'k':
            k = int(v[1])
            if v[2] == 1:
                k = abs(k)
            return (k, k)
        if v[0] == 'n' or v[0] == 'z':
            return ZERO
        if v[0] in ('f', 'g', 'ge', 'tok'):
            return POS
        if v[0] == 'iv':
            return v[1]
        if v[0] == 'i':
            iv = st['env'].get(v[1], TOP)
            if iv[0] is None or iv[0] != iv[1]:
                i = self.fn.inst(v)
                if i.op in ('zext', 'freeze') and i.o[0][0] == 'i':
                    w = st['env'].get(self.root(i.o[0], st)[1] if self.root(i.o[0], st)[0] == 'i' else None, TOP)
                    if w[0] is not None and w[0] == w[1] and w[0] >= 0:
                        return w
            return iv
        if v[0] == 'a':
            return st['env'].get(('a', v[1]), TOP)
        return TOP

    def setv(self, v, iv, st):
        v = self.root(v, st)
        if v[0] == 'i':
            st['env'][v[1]] = iv
            i = self.fn.inst(v)
            if i.op == 'sext' or (i.op == 'zext' and iv[0] is not None and iv[0] >= 0):
                o = self.root(i.o[0], st)
                m = meet(self.val(o, st), iv)
                if m is not None and o[0] in 'ia':
                    self.setv(o, m, st)
            if i.op == 'freeze':
                self.setv(i.o[0], iv, st)
        elif v[0] == 'a':
            st['env'][('a', v[1])] = iv

    def addrkey(self, v, st):
        """key of a tracked memory cell: (root, offset)"""
        off = 0
        n = 0
        while n < 60:
            n += 1
            v = self.root(v, st)
            if v[0] == 'i':
                i = self.fn.inst(v)
                if i.op == 'getelementptr' and i.off is not None:
                    off += i.off
                    v = i.o[0]
                    continue
                if i.op == 'getelementptr':
                    return None
                if i.op == 'alloca':
                    return (('L', i.id), off)
                if i.op in ('call', 'invoke') and i.callee and len(i.o) == 1 and mod.is_pure_ext(self.fn.prog, i.callee):
                    # smart pointer dereference: the same object each time
                    k = self.addrkey(i.o[0], st)
                    if k is not None:
                        return (('D', k), off)
                return (('P', v[1]), off)
            if v[0] == 'a':
                return (('A', v[1]), off)
            return None

    def escapes(self):
        """allocas whose address is stored or passed to a call"""
        return None

    def assume(self, cond, truth, st, depth=0):
        """refine st with cond==truth; False when infeasible"""
        if depth > 12:
            return True
        cond = self.root(cond, st)
        iv = self.val(cond, st)
        if iv == ((1, 1) if not truth else (0, 0)):
            return False
        if cond[0] == 'i':
            i = self.fn.inst(cond)
            if i.op == 'icmp':
                p = i.pred if truth else NEGATE[i.pred]
                a, b = self.val(i.o[0], st), self.val(i.o[1], st)
                r = cmp_eval(p, a, b)
                if r is False:
                    return False
                na, nb = refine(p, a, b), refine(SWAP[p], b, a)
                if na is None or nb is None:
                    return False
                if na != a:
                    self.setv(i.o[0], na, st)
                if nb != b:
                    self.setv(i.o[1], nb, st)
            elif i.op == 'xor' and i.ty == 'i1':
                k = self.val(i.o[1], st)
                if k == (1, 1):
                    return self.assume(i.o[0], not truth, st, depth + 1)
            elif i.op in ('zext', 'trunc', 'freeze'):
                if not self.assume(i.o[0], truth, st, depth + 1):
                    return False
            elif i.op == 'and' and truth:
                if not (self.assume(i.o[0], True, st, depth + 1) and self.assume(i.o[1], True, st, depth + 1)):
                    return False
            elif i.op == 'or' and not truth:
                if not (self.assume(i.o[0], False, st, depth + 1) and self.assume(i.o[1], False, st, depth + 1)):
                    return False
            self.setv(cond, (1, 1) if truth else (0, 0), st)
        elif cond[0] == 'a':
            self.setv(cond, (1, 1) if truth else (0, 0), st)
        return True

    # --- transfer
    def step(self, i, st, given=None):
        env = st['env']
        f = self.fn
        # redefinition inside loops: snapshot aliases of this id
        if i.ty != 'void':
            old = env.pop(i.id, None)
            st['alias'].pop(i.id, None)
            for k, v in list(st['mem'].items()):
                if v == ('i', i.id):
                    st['mem'][k] = ('iv', old or TOP)
            for k, v in list(st['alias'].items()):
                if v == ('i', i.id):
                    st['alias'][k] = ('iv', old or TOP)
        op = i.op
        if given is not None:
            env[i.id] = given
            if op in ('call', 'invoke'):
                self.clobber(i, st)
            return
        if op == 'icmp':
            r = cmp_eval(i.pred, self.val(i.o[0], st), self.val(i.o[1], st))
            if r is None and i.o[0] == i.o[1]:
                r = i.pred in ('eq', 'sle', 'sge', 'ule', 'uge')
            if r is not None:
                env[i.id] = (1, 1) if r else (0, 0)
        elif op in ('sext', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            v = self.val(i.o[0], st)
            if v != TOP:
                env[i.id] = v
        elif op == 'zext':
            v = self.val(i.o[0], st)
            if v[0] is not None and v[0] >= 0:
                env[i.id] = v
            else:
                env[i.id] = (0, None)
        elif op == 'trunc':
            v = self.val(i.o[0], st)
            n = bits(i.ty)
            if n == 1:
                if v in ((0, 0), (1, 1)):
                    env[i.id] = v
            elif v[0] is not None and v[1] is not None and -(1 << (n - 1)) <= v[0] and v[1] < (1 << (n - 1)):
                env[i.id] = v
            elif v in (NEG, POS):
                # status codes: assumed to fit (the codes are small integers)
                env[i.id] = v
        elif op == 'xor' and i.ty == 'i1':
            a, b = self.val(i.o[0], st), self.val(i.o[1], st)
            if a in ((0, 0), (1, 1)) and b in ((0, 0), (1, 1)):
                env[i.id] = ((a[0] ^ b[0]),) * 2
        elif op in ('and', 'or') and i.ty == 'i1':
            a, b = self.val(i.o[0], st), self.val(i.o[1], st)
            if op == 'and':
                if (0, 0) in (a, b):
                    env[i.id] = (0, 0)
                elif a == b == (1, 1):
                    env[i.id] = (1, 1)
            else:
                if (1, 1) in (a, b):
                    env[i.id] = (1, 1)
                elif a == b == (0, 0):
                    env[i.id] = (0, 0)
        elif op == 'and':
            b = self.val(i.o[1], st)
            if b[0] is not None and b[0] >= 0 and b[0] == b[1]:
                a = self.val(i.o[0], st)
                if a[0] is not None and a[0] == a[1]:
                    env[i.id] = (a[0] & b[0],) * 2
                else:
                    env[i.id] = (0, b[1])
        elif op == 'select':
            c = self.val(i.o[0], st)
            if c == (1, 1):
                st['alias'][i.id] = self.root(i.o[1], st)
            elif c == (0, 0):
                st['alias'][i.id] = self.root(i.o[2], st)
            else:
                a, b = self.val(i.o[1], st), self.val(i.o[2], st)
                lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
                hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
                if (lo, hi) != TOP:
                    env[i.id] = (lo, hi)
        elif op == 'alloca':
            env[i.id] = POS
        elif op == 'getelementptr':
            env[i.id] = POS if i.off else self.val(i.o[0], st)
            if env[i.id] == TOP:
                env.pop(i.id)
        elif op == 'load':
            k = self.addrkey(i.o[0], st)
            if k is not None:
                k = self.cell((k, i.sz), i.o[0])
                if k in st['mem']:
                    st['alias'][i.id] = st['mem'][k]
                else:
                    st['mem'][k] = ('i', i.id)
        elif op == 'store':
            k = self.addrkey(i.o[1], st)
            if k is None:
                # unknown target: may alias anything but non-escaping locals
                self.kill(st, lambda kk: kk[0][0][0] != 'L' or self.stored_escape(kk[0][0][1]))
            else:
                r = k[0]
                def same(kk):
                    if kk[0][0] == r:
                        o1, s1 = kk[0][1], kk[1]
                        return not (o1 + s1 <= k[1] or k[1] + i.sz <= o1)
                    if kk[0][0][0] == 'L' and r[0] == 'L':
                        return False
                    if kk[0][0][0] == 'L' and not self.stored_escape(kk[0][0][1]):
                        return False
                    if r[0] == 'L' and not self.stored_escape(r[1]):
                        return False
                    # distinct pointer roots: may alias only at same offset (same-class objects)
                    return kk[0][1] == k[1]
                self.kill(st, same)
                st['mem'][self.cell((k, i.sz), i.o[1])] = self.root(i.o[0], st)
        elif op in ('call', 'invoke'):
            if i.callee and i.callee.startswith('llvm.'):
                if i.callee.startswith('llvm.mem'):
                    self.kill(st, lambda kk: kk[0][0][0] != 'L' or self.esc(kk[0][0][1]))
                return
            self.clobber(i, st)
            if self.callmodel:
                r = self.callmodel(i, self, st)
                if r is not None:
                    env[i.id] = r

    def kill(self, st, pred):
        for kk in [kk for kk in st['mem'] if pred(kk)]:
            del st['mem'][kk]

    def esc(self, aid):
        """does the alloca escape in this function?"""
        c = self.fn._cache.setdefault('esc', {})
        if aid not in c:
            e = False
            st, seen = [aid], set()
            U = self.fn.uses()
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                for u in U.get(x, []):
                    if u.op == 'load':
                        continue
                    if u.op == 'store':
                        if u.o[0] == ('i', x):
                            e = True
                    elif u.op in ('getelementptr', 'bitcast', 'phi', 'select'):
                        st.append(u.id)
                    elif u.op in ('call', 'invoke'):
                        if not (u.callee and u.callee.startswith('llvm.lifetime')):
                            e = True
                    elif u.op == 'icmp':
                        pass
                    else:
                        e = True
            c[aid] = e
        return c[aid]

    def cell(self, k, addr):
        """remember which field the tracked cell k belongs to"""
        ck = self.fn._cache.setdefault('cellkey', {})
        if k not in ck:
            ck[k] = mod.fieldkey(self.fn, addr)
        return k

    def clobber(self, i, st):
        keys, locs = mod.call_writes(self.fn.prog, self.fn, i)
        ck = self.fn._cache.setdefault('cellkey', {})
        star = '*' in keys

        def dead(kk):
            r = kk[0][0]
            if r[0] == 'L':
                return r[1] in locs or self.stored_escape(r[1])
            if star:
                return True
            k = ck.get(kk)
            if k is None:
                return True
            return k in keys
        self.kill(st, dead)

    def stored_escape(self, aid):
        """alloca whose address is stored somewhere or captured (not just passed down)"""
        c = self.fn._cache.setdefault('sesc', {})
        if aid not in c:
            e = False
            st, seen = [aid], set()
            U = self.fn.uses()
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                for u in U.get(x, []):
                    if u.op == 'store' and u.o[0] == ('i', x):
                        e = True
                    elif u.op in ('getelementptr', 'bitcast', 'phi', 'select'):
                        st.append(u.id)
                    elif u.op in ('ptrtoint',):
                        e = True
            c[aid] = e
        return c[aid]

    def run(self, start, given, init=None, stop=None, env0=None):
        """explore from instruction `start` (assumed result `given`).
        Yields (kind, inst, state, trace): kind 'ret' | 'stop' | 'unreachable'."""
        f = self.fn
        st = {'env': dict(env0 or {}), 'mem': {}, 'alias': {}}
        if init:
            init(st)
        seen = set()
        work = [(start.bb, start.idx, st, given, (start.bb,))]
        n = 0
        while work:
            bb, idx, st, given, trace = work.pop(0 if self.bfs else -1)
            n += 1
            if n > self.LIMIT:
                raise TooMany('%s: more than %d states' % (f.clean, self.LIMIT))
            blk = f.blocks[bb]
            dead = False
            for i in blk[idx:]:
                if i.op in ('br', 'switch', 'ret', 'unreachable'):
                    break
                if getattr(self, 'abort', None):
                    return
                if i.op == 'phi':
                    continue
                if stop is not None and given is None:
                    s = stop(i, st, self)
                    if s:
                        yield ('stop', i, st, trace)
                        dead = True
                        break
                self.step(i, st, given)
                given = None
            if dead:
                continue
            t = blk[-1]
            if t.op == 'ret':
                yield ('ret', t, st, trace)
                continue
            if t.op == 'unreachable':
                continue
            outs = []
            if t.op == 'br':
                if not t.o:
                    outs = [(t.succ[0], None)]
                else:
                    c = self.val(t.o[0], st)
                    if c != (0, 0):
                        outs.append((t.succ[0], True))
                    if c != (1, 1):
                        outs.append((t.succ[1], False))
            elif t.op == 'switch':
                v = self.val(t.o[0], st)
                if v[0] is not None and v[0] == v[1]:
                    d = dict(t.cases)
                    outs = [(d.get(v[0], t.succ[0]), None)]
                else:
                    outs = [(t.succ[0], None)]
                    for k, s in t.cases:
                        if meet(v, (k, k)) is not None:
                            outs.append((s, ('eq', k)))
            elif t.op == 'invoke':
                outs = [(t.succ[0], None)]
            for s, c in outs:
                if self.edgeok is not None and not self.edgeok(bb, s):
                    continue
                ns = {'env': dict(st['env']), 'mem': dict(st['mem']), 'alias': dict(st['alias'])}
                if c is not None:
                    if isinstance(c, tuple):
                        self.setv(t.o[0], (c[1], c[1]), ns)
                    elif not self.assume(t.o[0], c, ns):
                        continue
                # phis (parallel)
                newv = []
                for i in f.blocks[s]:
                    if i.op != 'phi':
                        break
                    for v, pb in i.phi:
                        if pb == bb:
                            r = self.root(v, ns)
                            newv.append((i.id, r, self.val(r, ns)))
                            break
                ids = set(x[0] for x in newv)
                for pid, r, iv in newv:
                    # redefinition
                    old = ns['env'].pop(pid, None)
                    ns['alias'].pop(pid, None)
                    for k, v in list(ns['mem'].items()):
                        if v == ('i', pid):
                            ns['mem'][k] = ('iv', old or TOP)
                    for k, v in list(ns['alias'].items()):
                        if v == ('i', pid):
                            ns['alias'][k] = ('iv', old or TOP)
                for pid, r, iv in newv:
                    if r[0] == 'i' and r[1] not in ids and r[1] not in self._loopdefs(s):
                        ns['alias'][pid] = r
                    elif r[0] in ('k', 'n', 'iv', 'a', 'f', 'g', 'ge', 'tok'):
                        ns['alias'][pid] = r
                    elif iv != TOP:
                        ns['env'][pid] = iv
                # restrict to live values
                L = self.live[s]
                need = set(L)
                need |= ids
                for x in list(need):
                    r = self.root(('i', x), ns)
                    if r[0] == 'i':
                        need.add(r[1])
                        j = f.inst(r)
                        if j.op in ('zext', 'freeze') and j.o[0][0] == 'i':
                            need.add(j.o[0][1])
                for v in ns['mem'].values():
                    if v[0] == 'i':
                        need.add(v[1])
                ns['env'] = {k: v for k, v in ns['env'].items() if isinstance(k, tuple) or k in need}
                ns['alias'] = {k: v for k, v in ns['alias'].items() if k in need}
                # drop memory cells that carry no knowledge
                m2 = {}
                for k, v in ns['mem'].items():
                    if v[0] == 'i' and v[1] not in ns['env'] and v[1] not in L and v[1] not in ids:
                        continue
                    if self.slim and k[0][0][0] != 'L' and v[0] == 'i' and v[1] not in L and v[1] not in ids:
                        continue
                    m2[k] = v
                ns['mem'] = m2
                if self.only is not None:
                    # coarse mode: remember nothing but where one value is
                    o = self.only
                    ns['alias'] = {k: v for k, v in ns['alias'].items() if v == o}
                    ns['mem'] = {k: v for k, v in ns['mem'].items() if v == o}
                    ns['env'] = {k: v for k, v in ns['env'].items() if o == ('i', k) or o == k}
                key = (s, tuple(sorted(((str(k), v) for k, v in ns['env'].items()), key=str)),
                       tuple(sorted(ns['alias'].items(), key=str)), tuple(sorted(ns['mem'].items(), key=str)))
                if key in seen:
                    continue
                seen.add(key)
                work.append((s, 0, ns, None, trace + (s,) if len(trace) < 400 else trace))

    def _loopdefs(self, b):
        return ()


def explore_returns(fn, start, given, **kw):
    ex = Explorer(fn, **{k: kw.pop(k) for k in ('callmodel',) if k in kw})
    for kind, inst, st, trace in ex.run(start, given, **kw):
        if kind == 'ret':
            yield inst, (ex.val(inst.o[0], st) if inst.o else None), st, trace, ex
