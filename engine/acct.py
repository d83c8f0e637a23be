"""Linear accounting on SSA paths.

Explores the paths of a function keeping, for every tracked memory cell and SSA value, a linear
expression over symbols (initial values of cells, results of calls, counts reported by calls).
Path state is folded at block entries so that loops converge: whatever a counter and its
obligation have in common becomes one opaque amount.  Nothing is executed and no solver is used.
"""
import ir
import mod


class TooMany(Exception):
    pass


def lin(*pairs):
    d = {}
    for k, c in pairs:
        d[k] = d.get(k, 0) + c
    return frozenset((k, c) for k, c in d.items() if c)


def add(a, b, s=1):
    d = dict(a)
    for k, c in b:
        d[k] = d.get(k, 0) + s * c
    return frozenset((k, c) for k, c in d.items() if c)


def const(k):
    return lin((1, k)) if k else frozenset()


ZERO = frozenset()
CASTS = ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr')


def isconst(e):
    return all(k == 1 for k, _ in e)


def cval(e):
    return dict(e).get(1, 0)


_str = {}


def skey(kc):
    if kc not in _str:
        _str[kc] = str(kc)
    return _str[kc]


def skey0(kv):
    k = kv[0]
    if k not in _str:
        _str[k] = str(k)
    return _str[k]


class Walk:
    """subclass hooks: event(i, st) -> list of (state, result expr or None)"""
    LIMIT = 40000

    def __init__(self, f):
        self.f = f
        self.prog = f.prog
        self.T = ir.terms(f)
        f.blocks
        self.live = self._live()

    def _live(self):
        import flow
        return flow.Explorer(self.f).live

    # ---- addresses
    def key(self, v):
        """textual name of the cell an address denotes, or None"""
        b, off, var = self.T.split(v)
        if not var and b[0] == 'i' and self.f.inst(b).op == 'alloca':
            return ('L', b[1], off)
        if not var and b[0] == 'a':
            return ('A', b[1], off)
        return ('T', ir.show(self.T.addr(v)))

    def load(self, k, st, tag):
        if k not in st['mem']:
            st['mem'][k] = lin(((('m', k) if not tag else ('m', k, tag)), 1))
        return st['mem'][k]

    def val(self, v, st):
        if v[0] == 'k':
            return const(int(v[1]))
        if v[0] in ('n', 'z'):
            return ZERO
        if v[0] == 'i':
            e = st['env'].get(v[1])
            return e if e is not None else lin((('v', v[1]), 1))
        if v[0] == 'a':
            return lin((('a', v[1]), 1))
        return lin((('x',) + tuple(str(x) for x in v), 1))

    def forget(self, st, pred):
        for k in [k for k in st['mem'] if pred(k)]:
            st['gen'] = st['gen'] + 1
            st['mem'][k] = lin((('g', k, st['gen']), 1))

    # ---- transfer
    def step(self, i, st):
        """-> list of states"""
        op = i.op
        env = st['env']
        if op in ('load',):
            env[i.id] = self.load(self.key(i.o[0]), st, None)
        elif op == 'store':
            k = self.key(i.o[1])
            e = self.val(i.o[0], st)
            self.stored(i, k, st, e)
            st['mem'][k] = e
            if k[0] != 'L':
                self.alias(i, k, st)
        elif op in CASTS:
            env[i.id] = self.val(i.o[0], st)
        elif op in ('add', 'sub'):
            env[i.id] = add(self.val(i.o[0], st), self.val(i.o[1], st), 1 if op == 'add' else -1)
        elif op == 'mul' and (isconst(self.val(i.o[1], st)) or isconst(self.val(i.o[0], st))):
            a, b = self.val(i.o[0], st), self.val(i.o[1], st)
            if isconst(a):
                a, b = b, a
            env[i.id] = frozenset((k, c * cval(b)) for k, c in a if c * cval(b))
        elif op == 'select':
            c = self.cond(i.o[0], st)
            if c is None:
                out = []
                for t in (True, False):
                    s2 = self.copy(st)
                    if self.assume(i.o[0], t, s2):
                        s2['env'][i.id] = self.val(i.o[1 if t else 2], s2)
                        out.append(s2)
                return out
            env[i.id] = self.val(i.o[1 if c else 2], st)
        elif op in ('call', 'invoke'):
            if (i.callee or '').startswith('llvm.'):
                if 'memcpy' in i.callee or 'memset' in i.callee:
                    k = self.key(i.o[0])
                    n = int(i.o[2][1]) if i.o[2][0] == 'k' else 1 << 40
                    self.forget(st, lambda x: x[:2] == k[:2] and (x == k if k[0] == 'T' else k[2] - 16 < x[2] < k[2] + n))
                return [st]
            r = self.event(i, st)
            if r is not None:
                return r
            self.clobber(i, st)
            env[i.id] = self.fresh(i, st)
        elif op in ('icmp', 'fcmp'):
            env.pop(i.id, None)
        elif i.ty and i.ty != 'void' and op not in ('phi', 'alloca', 'getelementptr'):
            env[i.id] = self.fresh(i, st)
        return [st]

    def fresh(self, i, st):
        st['gen'] += 1
        return lin((('v', i.id, st['gen']), 1))

    def event(self, i, st):
        return None

    def stored(self, i, k, st, e):
        pass

    def alias(self, i, k, st):
        """what else a store may change: places named through the changed field"""
        if k[0] == 'A':
            t = ir.show(self.T.addr(i.o[1])).lstrip('&')
            self.forget(st, lambda x: x[0] == 'T' and t in x[1] and len(t) > 3)

    def clobber(self, i, st, skip=()):
        if i.callee:
            g = self.prog.fn.get(i.callee)
            if mod.is_pure_ext(self.prog, i.callee) or g is not None and not g.repo and \
                    self.prog.callee_name(i).rsplit('::', 1)[-1] in ('operator[]', 'at'):
                return
        keys, locs = mod.call_writes(self.prog, self.f, i)
        for v in i.o:
            if v[0] in 'ia':
                b = self.T.split(v)[0]
                if b[0] == 'i' and self.f.inst(b).op == 'alloca' and b[1] in locs:
                    self.forget(st, lambda x: x[0] == 'L' and x[1] == b[1] and x not in skip)
        fk = {k[1:] for k in keys if k[0] == 'f'}
        star = '*' in keys
        for k in list(st['mem']):
            if k in skip or k[0] == 'L':
                continue
            if k[0] == 'A':
                nm = self.field(k)
                if nm and nm not in fk:
                    continue
                if not nm and ('p', k[1]) not in keys and not star:
                    continue
            elif not star and not keys:
                continue
            self.forget(st, lambda x: x == k)

    def field(self, k):
        """(class, field) of a member cell of a parameter"""
        c = self.f._cache.setdefault('acct_field', {})
        if k not in c:
            c[k] = None
            for i in self.f.all():
                a = i.o[0] if i.op == 'load' else i.o[1] if i.op == 'store' else None
                if a is not None and self.key(a) == k:
                    fk = mod.fieldkey(self.f, a)
                    if fk[0] == 'f':
                        c[k] = fk[1:]
                        break
        return c[k]

    # ---- conditions
    def cond(self, v, st, depth=0):
        if v[0] == 'k':
            return int(v[1]) != 0
        if v[0] != 'i' or depth > 8:
            return None
        if ('c', v[1]) in st['fact']:
            return st['fact'][('c', v[1])]
        i = self.f.inst(v)
        if i.op == 'xor' and i.ty == 'i1':
            r = self.cond(i.o[0], st, depth + 1)
            return None if r is None else not r
        if i.op in ('zext', 'trunc', 'freeze'):
            e = st['env'].get(v[1])
            if e is not None and isconst(e):
                return cval(e) != 0
            return self.cond(i.o[0], st, depth + 1) if i.ty == 'i1' or i.op == 'freeze' else None
        if i.op == 'icmp':
            a, b = self.val(i.o[0], st), self.val(i.o[1], st)
            d = add(a, b, -1)
            if isconst(d):
                x = cval(d)
                p = i.pred
                if p == 'eq':
                    return x == 0
                if p == 'ne':
                    return x != 0
                if isconst(a) and isconst(b):
                    y, z = cval(a), cval(b)
                    if p[0] == 's' or y >= 0 and z >= 0:
                        return {'lt': y < z, 'le': y <= z, 'gt': y > z, 'ge': y >= z}[p[1:]]
                return None
            if i.pred in ('eq', 'ne'):
                f = st['fact'].get(d)
                if f is None:
                    f = st['fact'].get(add(ZERO, d, -1))
                if f is not None:
                    return f == (i.pred == 'eq')
            return None
        e = st['env'].get(v[1])
        if e is not None and isconst(e):
            return cval(e) != 0
        return None

    def assume(self, v, truth, st, depth=0):
        c = self.cond(v, st)
        if c is not None:
            return c == truth
        if v[0] != 'i':
            return True
        i = self.f.inst(v)
        st['fact'][('c', v[1])] = truth
        if i.op == 'xor' and i.ty == 'i1':
            return self.assume(i.o[0], not truth, st, depth + 1)
        if i.op == 'icmp' and i.pred in ('eq', 'ne'):
            a, b = self.val(i.o[0], st), self.val(i.o[1], st)
            d = add(a, b, -1)
            eq = truth == (i.pred == 'eq')
            st['fact'][d] = eq
            if eq:
                # a symbol equal to a constant is replaced by it
                s = [k for k, c2 in d if k != 1]
                if len(s) == 1 and abs(dict(d)[s[0]]) == 1:
                    k = -cval(d) * dict(d)[s[0]]
                    self.subst(st, s[0], const(k))
        return True

    def subst(self, st, sym, e):
        def r(x):
            d = dict(x)
            if sym not in d:
                return x
            c = d.pop(sym)
            return add(frozenset(d.items()), frozenset((k, w * c) for k, w in e))
        st['env'] = {k: r(x) for k, x in st['env'].items()}
        st['mem'] = {k: r(x) for k, x in st['mem'].items()}
        self.subst_extra(st, r)

    def subst_extra(self, st, r):
        pass

    def copy(self, st):
        n = dict(st)
        n['env'], n['mem'], n['fact'] = dict(st['env']), dict(st['mem']), dict(st['fact'])
        return n

    # ---- exploration
    def init(self):
        return dict(env={}, mem={}, fact={}, gen=0)

    def fold(self, st, b):
        """canonical form at the entry of a block"""
        lv = self.live[b]
        st['env'] = {k: e for k, e in st['env'].items() if k in lv}
        st['fact'] = {k: t for k, t in st['fact'].items() if not (isinstance(k, tuple) and k[0] == 'c' and k[1] not in lv)}
        used = set()
        for e in st['env'].values():
            used |= {k for k, _ in e}
        st['fact'] = {k: t for k, t in st['fact'].items()
                      if isinstance(k, tuple) or all(s == 1 or s in used for s, _ in k)}

    WIDE = 12

    def protected(self, k):
        return False

    def widen(self, st, b):
        """values that keep changing at one block (loop counters) become unknown there"""
        w = self.__dict__.setdefault('_wide', {})
        for d, tag in ((st['env'], 'e'), (st['mem'], 'm')):
            for k, e in d.items():
                if tag == 'm' and self.protected(k):
                    continue
                if len(e) == 1 and not isconst(e):
                    continue
                s = w.setdefault((b, tag, k), set())
                s.add(e)
                if len(s) > self.WIDE or len(e) > 8:
                    d[k] = lin((('W', tag, k, b), 1))

    def rename(self, st):
        """number generated symbols by first use, so that equal states compare equal"""
        names = {}

        def sym(k):
            if isinstance(k, tuple) and k[0] in ('g', 'v', 'e') and isinstance(k[-1], int) and len(k) == 3:
                base = k[:2]
                n = names.setdefault(base, {})
                if k not in n:
                    n[k] = len(n)
                return base + (n[k],)
            return k

        def r(e):
            if len(e) == 1:
                for k, c in e:
                    return frozenset(((sym(k), c),))
            return frozenset((sym(k), c) for k, c in sorted(e, key=skey))
        env = tuple((k, r(e)) for k, e in sorted(st['env'].items()))
        mem = tuple((k, r(e)) for k, e in sorted(st['mem'].items(), key=skey0))
        fact = tuple(sorted((str(k if isinstance(k, tuple) else sorted(r(k), key=str)), t) for k, t in st['fact'].items()))
        return (env, mem, fact, self.extra_key(st, r))

    def extra_key(self, st, r):
        return ()

    def run(self):
        """yields (ret inst, state)"""
        f = self.f
        st = self.init()
        work = [(0, None, st)]
        seen = set()
        n = 0
        while work:
            b, pb, st = work.pop()
            n += 1
            if n > self.LIMIT:
                raise TooMany(f.clean)
            if pb is not None:
                new = {}
                for i in f.blocks[b]:
                    if i.op != 'phi':
                        break
                    for x, p in i.phi:
                        if p == pb:
                            new[i.id] = self.val(x, st)
                            c = self.cond(x, st) if i.ty == 'i1' else None
                            if c is not None:
                                new[i.id] = const(1 if c else 0)
                st['env'].update(new)
                for i in f.blocks[b]:
                    st['fact'].pop(('c', i.id), None)
            self.fold(st, b)
            self.widen(st, b)
            k = (b, self.rename(st))
            if k in seen:
                continue
            seen.add(k)
            sts = [st]
            term = f.blocks[b][-1]
            for i in f.blocks[b]:
                if i.op in ('phi', 'br', 'switch', 'ret', 'unreachable'):
                    continue
                nxt = []
                for s in sts:
                    s['fact'].pop(('c', i.id), None)
                    nxt += self.step(i, s)
                sts = nxt
            for s in sts:
                if term.op == 'ret':
                    yield term, s
                elif term.op == 'br' and term.o:
                    for t, nb in ((True, term.succ[0]), (False, term.succ[1])):
                        s2 = self.copy(s)
                        if self.assume(term.o[0], t, s2):
                            work.append((nb, b, s2))
                elif term.op == 'switch':
                    e = self.val(term.o[0], s)
                    if isconst(e):
                        tgt = term.succ[0]
                        for cv, nb in term.cases:
                            if int(cv) == cval(e):
                                tgt = nb
                        work.append((tgt, b, s))
                    else:
                        for nb in dict.fromkeys(f.succs(b)):
                            work.append((nb, b, self.copy(s)))
                elif term.op == 'invoke':
                    work.append((term.succ[0], b, s))
                elif term.op in ('br',):
                    work.append((term.succ[0], b, s))
