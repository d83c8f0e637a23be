"""Ownership of raw pointers: allocations, releases, hand-over, per-field life cycle.

Everything is decided on the IR: explored paths for pointers held in locals, and a forward
dataflow over the states of owned pointer fields.
"""
import re

import flow
import ir

ALLOC = re.compile(r'^(_Zn[wa][mj]|malloc$|calloc$|strdup$)')
FREE = re.compile(r'^(_Zd[la]P?v|free$)')
# library functions that only look at what a pointer argument points to
BORROW = re.compile(r'^(memcpy|memmove|memset|memcmp|strlen|strcmp|strncmp|strcpy|strncpy|strcat|snprintf|sprintf|printf|'
                    r'fprintf|fread|fwrite|fputs|fopen|strtol|strtod|atoi|bcmp|__memcpy_chk|_ZSt.*|_ZNKSt.*|'
                    r'__sprintf_chk|__snprintf_chk|llvm\..*)$')
TOK = ('tok', 0)


def is_alloc(i):
    return i.op in ('call', 'invoke') and i.callee and ALLOC.match(i.callee) is not None \
        and not (i.callee.startswith('_Zn') and len(i.o) == 2 and i.o[1][0] in 'ia' and 'nothrow' not in i.callee.lower())


def is_ctor(f):
    return bool(f and f.cls and f.bname == f.cls.split('::')[-1].split('<')[0])


def is_dtor(f):
    return bool(f and f.bname.startswith('~'))


def freed_arg(prog, i):
    """operand whose pointee is released by the call, or None"""
    if i.op not in ('call', 'invoke') or not i.o:
        return None
    if i.callee:
        if FREE.match(i.callee):
            return i.o[0]
        if i.callee.endswith('D0Ev'):
            return i.o[0]
        return None
    ts = prog.targets(i)
    if ts and all(t.name.endswith('D0Ev') for t in ts):
        return i.o[0]
    return None


def base_of(f, v):
    """operand a pointer value is computed from by constant offsets"""
    while v[0] == 'i':
        i = f.inst(v)
        if i.op in ('bitcast', 'addrspacecast', 'freeze') or i.op == 'getelementptr' and i.off is not None:
            v = i.o[0]
        else:
            break
    if v[0] == 'ge':
        v = v[1]
    return v


def origins(f, v, seen=None):
    """SSA values a pointer can be, through offsets, phis and selects"""
    if seen is None:
        seen = set()
    v = base_of(f, v)
    if v in seen:
        return set()
    seen.add(v)
    if v[0] == 'i':
        i = f.inst(v)
        if i.op == 'phi':
            out = set()
            for x, _ in i.phi:
                out |= origins(f, x, seen)
            return out
        if i.op == 'select':
            return origins(f, i.o[1], seen) | origins(f, i.o[2], seen)
        if i.op == 'getelementptr':
            return origins(f, i.o[0], seen)
    return {v}


class Own:
    def __init__(self, prog, scope):
        self.prog = prog
        self.scope = scope
        self.fns = [f for f in prog.repo_fns(scope) if not f.decl]
        self._takes = {}
        self._busy = set()
        self.undec = []
        self.fresh = {}         # name -> True: returns an object the caller owns
        self.freshout = {}      # (name, arg) -> the call stores such an object through the argument
        self.paths = 0
        self.summaries()

    # ---------------------------------------------------------------- locals
    def derived(self, ex, v, st, tok):
        f = ex.fn
        n = 0
        while n < 40:
            n += 1
            v = ex.root(v, st)
            if v == tok:
                return True
            if v[0] == 'ge':
                v = v[1]
                continue
            if v[0] != 'i':
                return False
            i = f.inst(v)
            if i.op in ('getelementptr', 'bitcast', 'freeze'):
                v = i.o[0]
                continue
            return False
        return False

    def track(self, f, start, given, tok, init=None, depth=0):
        """follow an owned pointer from `start`; returns list of (kind, inst, state, ex) with kind in
        'freed','given','ret' (returned to the caller), 'lost' (return without release), 'out:N' (stored through arg N)"""
        res = self.track1(f, start, given, tok, init, depth, True)
        if any(r[0] == 'lost' for r in res):
            # precise about branch conditions only where it matters
            part = []
            try:
                res = self.track1(f, start, given, tok, init, depth, False, part)
            except flow.TooMany:
                # shortest paths come first: what was found is feasible
                lost = [r for r in part if r[0] == 'lost']
                if not lost:
                    raise
                res = [r for r in res if r[0] != 'lost'] + lost
        return res

    def track1(self, f, start, given, tok, init, depth, coarse, part=None):
        ex = flow.Explorer(f)
        ex.LIMIT = 20000
        ex.bfs = True
        if coarse:
            ex.only = tok
        hits = []

        def stop(i, st, ex):
            if i is start:
                return False
            if i.op == 'store':
                if self.derived(ex, i.o[0], st, tok):
                    k = ex.addrkey(i.o[1], st)
                    if k is not None and k[0][0] == 'L' and not ex.stored_escape(k[0][1]) and not self.array(f, k[0][1]):
                        return False
                    b = ex.root(i.o[1], st)
                    if b[0] == 'a':
                        hits.append(('out:%d' % b[1], i, st))
                    else:
                        hits.append(('given', i, st))
                    return True
                return False
            if i.op in ('call', 'invoke'):
                for n, a in enumerate(i.o):
                    if not self.derived(ex, a, st, tok):
                        k = ex.addrkey(a, st)
                        if k is not None and k[0][0] == 'L' and not (i.callee or '').startswith('llvm.') and any(
                                kk[0][0] == k[0] and self.derived(ex, v, st, tok) for kk, v in st['mem'].items()):
                            hits.append(('given', i, st))
                            return True
                        continue
                    fa = freed_arg(self.prog, i)
                    if fa is not None and n == 0:
                        hits.append(('freed', i, st))
                        return True
                    r = self.takes(i, n)
                    if r is True:
                        hits.append(('given', i, st))
                        return True
                    if r:
                        hits.append(('maybe', i, (st, r)))
                        return True
            return False
        res = part if part is not None else []
        for kind, inst, st, tr in ex.run(start, given, init=init, stop=stop):
            self.paths += 1
            if kind == 'ret':
                if inst.o and self.derived(ex, inst.o[0], st, tok):
                    res.append(('ret', inst, st, tr, ex))
                else:
                    res.append(('lost', inst, st, tr, ex))
        for k, i, st in hits:
            if k != 'maybe':
                res.append((k, i, st, (), ex))
                continue
            st, outs = st
            if depth > 3:
                continue
            for iv in outs:
                def ini(s, st=st):
                    s['env'].update(st['env'])
                    s['mem'].update(st['mem'])
                    s['alias'].update(st['alias'])
                if f.rty == 'void' or i.ty == 'void':
                    iv2 = flow.TOP
                else:
                    iv2 = iv
                res.append(('given', i, st, (), ex))
                res += self.track1(f, i, iv2, tok, ini, depth + 1, coarse)
        return res

    def after_free(self, f):
        """uses of a pointer after its release: [(release, use)]"""
        defs = {}
        for i in f.calls():
            a = freed_arg(self.prog, i)
            if a is None:
                continue
            for o in origins(f, a):
                if o[0] == 'i' and f.inst(o).op not in ('alloca',) or o[0] == 'a':
                    defs.setdefault(o, []).append(i)
        out = []
        for tok, frees in defs.items():
            ex = flow.Explorer(f)
            ex.LIMIT = 4000
            FR = ('freed',)
            hit = []
            ids = {i.id: i for i in frees}

            def stop(i, st, ex):
                if tok == ('i', i.id):
                    return FR in st['env']
                fr = FR in st['env']
                if i.id in ids and i.op in ('call', 'invoke') and self.derived(ex, i.o[0], st, tok):
                    if fr:
                        hit.append((ids[st['env'][FR][0]], i))
                        return True
                    st['env'][FR] = (i.id, i.id)
                    return False
                if not fr:
                    return False
                if i.op == 'load' and self.derived(ex, i.o[0], st, tok):
                    hit.append((ids[st['env'][FR][0]], i))
                    return True
                if i.op == 'store' and self.derived(ex, i.o[1], st, tok):
                    hit.append((ids[st['env'][FR][0]], i))
                    return True
                if i.op in ('call', 'invoke') and not (i.callee or '').startswith('llvm.') and any(
                        self.derived(ex, x, st, tok) for x in i.o):
                    hit.append((ids[st['env'][FR][0]], i))
                    return True
                return False
            try:
                if tok[0] == 'a':
                    class S:
                        bb, idx = 0, 0
                    g = ex.run(S(), None, stop=stop)
                else:
                    d = f.inst(tok)
                    g = ex.run(d, flow.POS, stop=stop) if d.op != 'phi' else ()
                    if d.op == 'load':
                        g = self.from_load(ex, d, stop)
                for _ in g:
                    if hit:
                        break
            except flow.TooMany:
                hit[:] = []
                if not self.from_frees(f, tok, frees, stop, hit, FR):
                    self.undec.append('%s: uses after release, too many paths' % f.clean)
                    continue
            self.frees = getattr(self, 'frees', 0) + len(frees)
            out += hit[:1]
        return out

    def from_frees(self, f, tok, frees, stop, hit, FR):
        """the same from each release on, for functions with too many paths before it"""
        for fr in frees:
            ex = flow.Explorer(f)
            ex.LIMIT = 4000
            ex.only = tok
            if fr.op == 'invoke':
                continue
            nx = f.blocks[fr.bb][fr.idx + 1]

            class S:
                bb, idx = nx.bb, nx.idx

            def ini(st, fr=fr):
                st['env'][FR] = (fr.id, fr.id)
            try:
                for _ in ex.run(S(), None, init=ini, stop=stop):
                    if hit:
                        return True
            except flow.TooMany:
                return False
        return True

    def from_load(self, ex, d, stop):
        def ini(st):
            k = ex.addrkey(d.o[0], st)
            if k is not None:
                st['mem'][ex.cell((k, d.sz), d.o[0])] = ('i', d.id)
            st['env'][d.id] = flow.POS
        nx = ex.fn.blocks[d.bb][d.idx + 1]

        class S:
            bb, idx = nx.bb, nx.idx
        return ex.run(S(), None, init=ini, stop=stop)

    def array(self, f, aid):
        """local whose address is used with variable offsets"""
        for u in f.uses().get(aid, []):
            if u.op == 'getelementptr' and u.off is None:
                return True
        return False

    def takes(self, i, n):
        """does the call take over the pointer passed as argument n?  True: always; False: never;
        list of return intervals: not taken over when the call returns one of these"""
        p = self.prog
        if i.callee and i.callee.startswith('llvm.'):
            return False
        ts = p.targets(i)
        ts = [t for t in ts if t.repo]
        if not ts:
            if i.callee and BORROW.match(i.callee):
                return False
            if i.callee and re.match(r'^_ZN?K?St|^_ZNSt', i.callee):
                return True
            if i.callee is None:
                # application interface (reader, writer, callback)
                return False
            return not BORROW.match(i.callee)
        out = []
        for t in ts:
            if t.decl:
                return True
            r = self.param(t, n)
            if r is True:
                return True
            if r:
                out += r
        return out or False

    def param(self, f, n):
        key = (f.name, n)
        if key in self._takes:
            return self._takes[key]
        if key in self._busy or n >= f.nargs:
            return False
        # quick test: is the argument ever stored, released or passed on?
        f.blocks
        v = ('a', n)
        if not self.mentions(f, v):
            self._takes[key] = False
            return False
        self._busy.add(key)
        try:
            first = f.blocks[0][0]
            tok = ('a', n)

            def ini(st):
                st['env'][('a', n)] = flow.POS
            try:
                res = self.track_entry(f, tok, ini)
            except flow.TooMany:
                self._takes[key] = True
                return True
            lost = [r for r in res if r[0] in ('lost', 'ret')]
            kept = [r for r in res if r[0] in ('given', 'freed') or r[0].startswith('out')]
            if not kept:
                r = False
            elif not lost:
                r = True
            else:
                ivs = []
                for k, inst, st, tr, ex in lost:
                    iv = ex.val(inst.o[0], st) if inst.o else flow.TOP
                    if iv not in ivs:
                        ivs.append(iv)
                r = ivs
            self._takes[key] = r
            return r
        finally:
            self._busy.discard(key)

    def mentions(self, f, v):
        """is the value (or something at a constant offset of it) stored, passed or returned?"""
        for i in f.all():
            if i.op == 'store' and base_of(f, i.o[0]) == v:
                return True
            if i.op in ('call', 'invoke') and any(base_of(f, x) == v for x in i.o):
                return True
            if i.op in ('phi',) and any(base_of(f, x) == v for x, _ in i.phi):
                return True
            if i.op == 'select' and any(base_of(f, x) == v for x in i.o[1:]):
                return True
        return False

    def track_entry(self, f, tok, ini):
        class S:
            bb, idx = 0, 0
        s = S()
        return self.track(f, s, None, tok, init=ini)

    # ---------------------------------------------------------------- summaries
    def sources(self, f):
        """(call, token, given, init) for every point of f that yields an owned pointer"""
        for i in f.calls():
            if is_alloc(i):
                yield i, ('i', i.id), flow.POS, None, 'new'
                continue
            ts = [t for t in self.prog.targets(i) if t.repo]
            if not ts:
                continue
            if any(self.fresh.get(t.name) for t in ts):
                yield i, ('i', i.id), flow.POS, None, ts[0].clean
            for n, a in enumerate(i.o):
                rv = None
                for t in ts:
                    if (t.name, n) in self.freshout:
                        rv = self.freshout[(t.name, n)]
                if rv is None:
                    continue
                b = base_of(f, a)
                if b[0] != 'i' or f.inst(b).op != 'alloca' or a != b or (f.inst(b).vty or '').startswith('std::'):
                    continue
                for iv in rv:
                    yield i, TOK, iv, (b, i), ts[0].clean

    def summaries(self):
        ch, rounds = True, 0
        self.results = {}
        while ch and rounds < 6:
            ch = False
            rounds += 1
            for f in self.fns:
                if is_ctor(f) and False:
                    continue
                res = []
                for i, tok, given, cell, what in self.sources(f):
                    try:
                        rs = self.follow(f, i, tok, given, cell)
                    except flow.TooMany as e:
                        self.undec.append('%s: too many paths from %s' % (f.clean, i.loc))
                        continue
                    res.append((i, tok, given, what, rs))
                    for k, inst, st, tr, ex in rs:
                        if k == 'ret' and not self.fresh.get(f.name):
                            self.fresh[f.name] = True
                            ch = True
                        if k.startswith('out:'):
                            n = int(k[4:])
                            # which return values follow such a store
                            iv = self.after(f, inst, st, tok)
                            have = self.freshout.setdefault((f.name, n), [])
                            for x in iv:
                                if x not in have:
                                    have.append(x)
                                    ch = True
                self.results[f.name] = res

    def follow(self, f, i, tok, given, cell):
        if cell is None:
            return self.track(f, i, given, tok)
        b, call = cell
        # the call leaves the owned pointer in a local variable
        ex = flow.Explorer(f)
        st0 = {'env': {}, 'mem': {}, 'alias': {}}
        key = ((('L', b[1]), 0), 8)
        nxt = f.blocks[i.bb][i.idx + 1] if i.op == 'call' else f.blocks[i.succ[0]][0]

        def ini(st):
            st['env'][i.id] = given
            st['mem'][key] = TOK
        f._cache.setdefault('cellkey', {}).setdefault(key, ('L', b[1]))

        class S:
            bb, idx = nxt.bb, nxt.idx
        return self.track(f, S(), None, TOK, init=ini)

    def after(self, f, inst, st, tok):
        ex = flow.Explorer(f)

        def gone(i, s, ex):
            a = freed_arg(self.prog, i)
            return a is not None and self.derived(ex, a, s, tok)

        def ini(s):
            s['env'].update(st['env'])
            s['mem'].update(st['mem'])
            s['alias'].update(st['alias'])
        out = []
        for kind, r, s2, tr in ex.run(inst, None, init=ini, stop=gone):
            if kind == 'ret':
                iv = ex.val(r.o[0], s2) if r.o else flow.TOP
                if iv not in out:
                    out.append(iv)
        return out


L, N, F, U, M = 'live', 'null', 'freed', 'unset', 'moved'


class Fields:
    """life cycle of owned pointer fields.  owned: {(class, field)}"""

    def __init__(self, own, owned, fill=None, inv=None):
        self.own, self.prog, self.owned = own, own.prog, owned
        self.fill = fill or {}
        self.inv = inv or {}
        self.sum = {}           # fn name -> {key: frozenset} exit states for keys rooted at arguments
        self.clob = {}          # fn name -> set of keys overwritten although possibly live
        self.freesv = {}        # fn name -> keys released on some path
        self.fns = own.fns
        self.stores = 0
        self.frees = 0
        self.ctx = {}
        for rnd in range(5):
            ch = False
            for f in self.fns:
                r = Flow(self, f)
                old = (self.sum.get(f.name), self.clob.get(f.name), self.freesv.get(f.name))
                new = (r.exit_args(), r.clobbered, r.released)
                if old != new:
                    ch = True
                    self.sum[f.name], self.clob[f.name], self.freesv[f.name] = new
            self.ctx = {}
            if not ch:
                break

    def summary(self, f, nulls):
        if not nulls:
            return self.sum.get(f.name)
        k = (f.name, nulls)
        if k not in self.ctx:
            self.ctx[k] = self.sum.get(f.name)
            self.ctx[k] = Flow(self, f, nulls).exit_args()
        return self.ctx[k]


def root_of(k):
    while k[0] in ('.', '[]', '&', 'ld'):
        k = k[1]
    return k


def subst(k, m):
    if k[0] == 'arg':
        r = m.get(k[1])
        if r is None:
            return None
        return r[1] if r[0] == '&' else r
    if k[0] in ('.', '[]', 'ld', '&'):
        b = subst(k[1], m)
        return None if b is None else (k[0], b) + tuple(k[2:])
    return None


class Flow:
    def __init__(self, fs, f, nulls=()):
        self.fs, self.f = fs, f
        self.nulls = nulls          # arguments known to be null
        self.p = fs.prog
        self.T = ir.terms(f)
        self.bad = []
        self.clobbered = set()
        self.released = set()
        self.keyof = {}
        self.rets = []
        self.note = {}
        self.run()

    def key(self, a):
        """key of an owned pointer cell, or None"""
        if a in self.note:
            return self.note[a]
        self.note[a] = None
        f = self.f
        r = None
        if a[0] == 'a':
            n = a[1] - (1 if f.sret else 0)
            t = f.ptypes[n] if 0 <= n < len(f.ptypes) else ''
            t = t.replace('const', '').replace(' ', '')
            if t.endswith('**') or t.endswith('*&'):
                r = self.T.term(a)
        if r is None and a[0] in 'ia':
            m = self.T.member(a)
            if m[1] and m[2] and not m[4] and (m[2], m[1][-1]) in self.fs.owned:
                r = self.T.addr(a)
                if hidden(r):
                    r = None
        self.note[a] = r
        return r

    def loadkey(self, v):
        if v[0] != 'i':
            return None
        i = self.f.inst(v)
        return self.key(i.o[0]) if i.op == 'load' else None

    def default(self, k):
        r = root_of(k)
        if r[0] == 'arg' and r[1] == 0 and k[0] == '.' and any(k[2] == x[2] for x in self.fs.fill.get(self.f.name, ())):
            return frozenset([U])
        if r[0] == 'arg':
            return frozenset([U if own_ctor(self.f) and r[1] == 0 else L])
        if r[0] == 'phi':
            os = origins(self.f, ('i', r[1]))
            if os and all(o[0] in ('n', 'z') or o[0] == 'i' and is_alloc(self.f.inst(o)) for o in os):
                return frozenset([U])
        if r[0] == 'loc' or r[0] == 'call' and 'operator new' in str(r[1]):
            return frozenset([U])
        return frozenset([L])

    def get(self, st, k):
        return st[k] if k in st else self.default(k)

    def run(self):
        f = self.f
        rpo = f.rpo()
        ins = {0: {}}
        work = [0]
        n = 0
        while work:
            b = min(work, key=lambda x: rpo.index(x) if x in rpo else 1 << 30)
            work.remove(b)
            n += 1
            if n > 40 * len(f.blocks) + 100:
                break
            st = dict(ins[b])
            for i in f.blocks[b]:
                self.step(i, st, False)
            for s in dict.fromkeys(f.succs(b)):
                ns = self.edge(b, s, st)
                if ns is None:
                    continue
                if s not in ins:
                    ins[s] = ns
                    work.append(s)
                else:
                    j = dict(ins[s])
                    for k in set(j) | set(ns):
                        j[k] = self.get(j, k) | self.get(ns, k)
                    if j != ins[s]:
                        ins[s] = j
                        if s not in work:
                            work.append(s)
        for b in sorted(ins):
            st = dict(ins[b])
            for i in f.blocks[b]:
                self.step(i, st, True)

    def edge(self, b, s, st):
        f = self.f
        ns = dict(st)
        t = f.blocks[b][-1]
        if t.op == 'br' and t.o and t.succ[0] != t.succ[1]:
            c = self.const(t.o[0])
            if c is not None and s != t.succ[0 if c else 1]:
                return None
            self.assume(t.o[0], s == t.succ[0], ns, 0)
        return ns

    def const(self, v, depth=0):
        if v[0] == 'k':
            return int(v[1]) != 0
        if v[0] != 'i' or depth > 6:
            return None
        i = self.f.inst(v)
        if i.op == 'xor':
            c = self.const(i.o[0], depth + 1)
            return None if c is None or i.o[1][0] != 'k' else not c
        if i.op == 'icmp' and i.pred in ('eq', 'ne'):
            for a, b in ((i.o[0], i.o[1]), (i.o[1], i.o[0])):
                if b[0] in ('n', 'z') and a[0] == 'a' and a[1] in self.nulls:
                    return i.pred == 'eq'
        return None

    def assume(self, v, truth, st, depth):
        if v[0] != 'i' or depth > 6:
            return
        i = self.f.inst(v)
        if i.op == 'icmp' and self.fs.inv:
            # class invariants: a negative count means the member is null
            a, b = i.o[0], i.o[1]
            if b[0] == 'k' and a[0] == 'i' and self.f.inst(a).op == 'load':
                neg = {('slt', 0): True, ('sgt', -1): False, ('sge', 0): False, ('sle', -1): True}.get((i.pred, int(b[1])))
                if neg == truth:
                    m = self.T.member(self.f.inst(a).o[0])
                    w = self.fs.inv.get((m[2], m[1][-1])) if m[1] else None
                    t = self.T.addr(self.f.inst(a).o[0])
                    if w and t[0] == '.':
                        st[('.', t[1], w)] = frozenset([N])
        if i.op == 'icmp' and i.pred in ('eq', 'ne'):
            for a, b in ((i.o[0], i.o[1]), (i.o[1], i.o[0])):
                if b[0] in ('n', 'z') or b[0] == 'k' and int(b[1]) == 0:
                    k = self.loadkey(base_of(self.f, a))
                    if k is None and a[0] == 'a' and self.key(a) is not None and (i.pred == 'eq') == truth:
                        # there is no such cell
                        st[self.key(a)] = frozenset([N])
                    if k is not None:
                        cur = self.get(st, k)
                        if (i.pred == 'eq') == truth:
                            st[k] = frozenset([N]) if cur - {F, M} else cur
                        else:
                            st[k] = cur - {N} or frozenset([L])
        elif i.op == 'xor':
            self.assume(i.o[0], not truth, st, depth + 1)
        elif i.op == 'and' and truth or i.op == 'or' and not truth:
            self.assume(i.o[0], truth, st, depth + 1)
            self.assume(i.o[1], truth, st, depth + 1)

    def step(self, i, st, rep):
        f = self.f
        if i.op == 'phi':
            # another object every time round
            for x in [x for x in st if root_of(x) == ('phi', i.id)]:
                del st[x]
            return
        if i.op == 'store':
            k = self.key(i.o[1])
            # handing the old value on
            for o in origins(f, i.o[0]):
                kk = self.loadkey(o)
                if kk is not None and kk != k:
                    b = base_of(f, i.o[1])
                    if not (b[0] == 'i' and f.inst(b).op == 'alloca'):
                        st[kk] = frozenset([M])
            if k is None:
                return
            cur = self.get(st, k)
            same = any(self.loadkey(o) == k for o in origins(f, i.o[0]))
            if L in cur and not same and not self.kept(k, i):
                if k[0] == 'arg':
                    self.clobbered.add(k)
                elif rep:
                    self.bad.append(('overwrite', k, i))
            if rep and k[0] != 'arg':
                self.fs.stores += 1
            v = i.o[0]
            self.drop(st, k)
            st[k] = frozenset([N]) if v[0] in ('n', 'z') or v[0] == 'k' else frozenset([L])
            return
        if i.op in ('call', 'invoke'):
            a = freed_arg(self.p, i)
            if a is not None:
                os = origins(f, a)
                for o in os:
                    k = self.loadkey(o)
                    if k is None:
                        continue
                    cur = self.get(st, k)
                    if rep:
                        self.fs.frees += 1
                        if cur <= {F} and not self.replaced(k, f.inst(o), i):
                            self.bad.append(('double', k, i))
                    self.released.add(k)
                    if self.replaced(k, f.inst(o), i):
                        continue        # the old value of a cell that holds something else by now
                    self.drop(st, k)
                    st[k] = frozenset([F]) if len(os) == 1 else cur | {F}
                return
            if i.callee and i.callee.startswith('llvm.'):
                return
            ts = [t for t in self.p.targets(i) if t.repo and t.name in self.fs.sum]
            if not ts:
                return
            m, cells = {}, {}
            for n, x in enumerate(i.o):
                if x[0] in ('i', 'a'):
                    m[n] = self.T.term(x)
                    kx = self.key(x)
                    if kx is not None:
                        cells[n] = kx

            def subst1(k):
                if k[0] == 'arg':
                    return cells.get(k[1])
                return subst(k, m)
            upd = {}
            st0 = st
            nulls = tuple(n for n, x in enumerate(i.o) if x[0] in ('n', 'z'))
            for t in ts:
                for k in self.fs.clob.get(t.name) or ():
                    kk = subst1(k)
                    if kk is not None and self.ours(i, k) and L in self.get(st, kk):
                        if kk[0] == 'arg':
                            self.clobbered.add(kk)
                        elif rep:
                            self.bad.append(('overwrite', kk, i))
                for k, ex in (self.fs.summary(t, nulls) or {}).items():
                    kk = subst1(k)
                    if kk is None or k[0] == 'arg' and not self.ours(i, k):
                        continue
                    cur = self.get(st, kk)
                    # an exit state of "live" in a function entered with something dead means it was stored there
                    new = ex
                    upd[kk] = upd[kk] | new if kk in upd else new
                for k in self.fs.freesv.get(t.name) or ():
                    kk = subst1(k)
                    if kk is not None:
                        if rep and F in self.get(st0, kk) and not hidden(kk) and root_of(kk)[0] in ('loc', 'arg'):
                            self.bad.append(('double', kk, i))
                        self.released.add(kk)
            st.update(upd)
            return
        if i.op == 'ret' and rep:
            self.rets.append((i, dict(st)))

    def drop(self, st, k):
        """the object the cell pointed to is no longer reached through it"""
        for x in [x for x in st if x != k and inside(k, x)]:
            del st[x]

    def ours(self, i, k):
        """the argument passed for the cell k=('arg',n,..) is the address of an owned field or of a parameter cell"""
        x = i.o[k[1]] if k[0] == 'arg' and k[1] < len(i.o) else None
        if k[0] != 'arg':
            return True
        return x is not None and self.key(x) is not None

    def kept(self, k, s):
        """the old value was read before and is still used after the store s (released or moved later)"""
        f = self.f
        U_ = f.uses()
        for i in f.all():
            if i.op == 'load' and self.key(i.o[0]) == k and f.inst_dominates(i, s):
                st, seen = [i.id], set()
                while st:
                    x = st.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    for u in U_.get(x, []):
                        if u.op in ('getelementptr', 'phi', 'select', 'bitcast'):
                            st.append(u.id)
                        elif u.op == 'store' and u.o[0] == ('i', x) and u is not s:
                            return True
                        elif freed_arg(self.p, u) is not None and self.later(s, u):
                            return True
                        elif u.op == 'ret':
                            return True
        return False

    def replaced(self, k, ld, fr):
        f = self.f
        return any(s.op == 'store' and self.key(s.o[1]) == k and f.inst_dominates(ld, s) and f.inst_dominates(s, fr)
                   for s in f.all())

    def later(self, a, b):
        if a.bb == b.bb and b.idx > a.idx:
            return True
        f = self.f
        seen, w = set(), list(f.succs(a.bb))
        while w:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            w += f.succs(x)
        return b.bb in seen

    def exit_args(self):
        out = {}
        keys = set()
        for i, st in self.rets:
            keys |= set(st)
        for k in keys:
            if root_of(k)[0] != 'arg' or any_phi(k):
                continue
            s = frozenset()
            for i, st in self.rets:
                s |= self.get(st, k)
            if s != self.default(k) or own_ctor(self.f):
                out[k] = s
        return out


def inside(k, x):
    while isinstance(x, tuple) and x and x[0] in ('.', '[]', '&', 'ld'):
        x = x[1]
        if x == k:
            return True
    return False


def hidden(k):
    """cells of library types and of array elements are not followed"""
    while k[0] in ('.', '[]', '&', 'ld'):
        if k[0] == '[]' or k[0] == '.' and str(k[2]).startswith('_M_'):
            return True
        k = k[1]
    return False


def any_phi(k):
    if isinstance(k, tuple):
        if k and k[0] in ('phi', 'cyc', 'deep'):
            return True
        return any(any_phi(x) for x in k)
    return False


def own_ctor(f):
    return is_ctor(f)
