"""C21: a parser object starts every element afresh."""
import re

import ir
import mod


def strip_t(s):
    prev = None
    while prev != s:
        prev, s = s, re.sub(r'<[^<>]*>', '', s)
    return s


def canon(c):
    return re.sub(r'\s+(?=>)', '', c)


RESET = ('Init', 'InitAfterSeek')


class Classes:
    def __init__(self, prog):
        self.p = prog
        self.fns = prog.repo_fns(lambda f: f.file.startswith('webm_parser/') and '/demo/' not in f.file)
        self.by = {}
        self.names = {canon(t): t for t in prog.types}
        for f in self.fns:
            if '::' in f.clean and f.args and f.args[0] == 'this':
                self.by.setdefault(canon(self.cls(f)), []).append(f)

    def type(self, c):
        return self.p.types.get(self.names.get(canon(c), c))

    @staticmethod
    def cls(f):
        """class of a method, with template arguments"""
        d = 0
        s = f.clean
        for n in range(len(s) - 1, 0, -1):
            if s[n] == '>':
                d += 1
            elif s[n] == '<':
                d -= 1
            elif d == 0 and s[n - 1:n + 1] == '::':
                return s[:n - 1]
        return ''

    def last(self, f):
        return f.clean[len(self.cls(f)) + 2:]

    def bases(self, c):
        t = self.type(c)
        return [m[1] for m in (t or {}).get('members', []) if m[0] == 'base']

    def derives(self, c, root, depth=0):
        return canon(c) == root or depth < 12 and any(self.derives(b, root, depth + 1) for b in self.bases(c))

    def fields(self, c):
        t = self.type(c)
        return [m for m in (t or {}).get('members', []) if m[0] == 'field' and not m[1].startswith('_vptr')]


def unit_of(f, v, units, via=None):
    """the unit of the own object an address lies in: name, '*' for the object itself, or None"""
    T = ir.terms(f)
    b, off, var = T.split(v)
    if b != ('a', 0) and not (via is not None and b[0] == 'i' and f.inst(b).op == 'load' and f.inst(b).ty == 'ptr'
                              and T.split(f.inst(b).o[0])[:2] == (('a', 0), via)):
        return None
    for n, o, sz in units:
        if o <= off < o + max(sz, 1):
            return n
    return '*' if off == 0 and not var else None


def is_const_call(p, i):
    if i.callee and i.callee.startswith('llvm.'):
        return True
    ts = p.targets(i)
    if ts:
        return all((t.dem or '').rstrip().endswith(' const') for t in ts)
    if i.callee:
        return mod.is_pure_ext(p, i.callee)
    return False


# at least one of the group on every path that starts an element: the other one is computed before it is used
GROUPS = {('webm::FloatParser', 'Init'): [({'uint64_value_', 'value_'},
          'the value is either given when the element starts (empty element) or computed from the accumulated bits')]}
# written by the parsing function before it is read
COMPUTED = {('webm::MasterParser', 'Init'): [('child_metadata_', 4,
            'every member of the header of a child is stored while the header is read, before it is used')],
            ('webm::WebmParser::DocumentParser', 'DidSeek'): [('child_metadata_', 4,
            'every member of the header of a child is stored while the header is read, before it is used')]}
PURE = ('find', 'begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'count', 'get', 'operator bool')


def const_args(p, i):
    """positions of arguments passed as reference to const"""
    t = (p.targets(i) or [p.fn.get(i.callee)])[0] if (p.targets(i) or i.callee) else None
    dem = (t.dem or '') if t is not None else ''
    dem = re.sub(r' const$', '', dem.rstrip())
    if not dem.endswith(')'):
        return set()
    d, out, cur = 0, [], ''
    for ch in reversed(dem[:-1]):
        if ch in ')>':
            d += 1
        elif ch in '<(':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur[::-1])
            cur = ''
        else:
            cur += ch
    out.append(cur[::-1])
    out.reverse()
    first = len(i.o) - len(out)
    return {first + n for n, s in enumerate(out) if re.search(r'\bconst ?[&*]$', s.strip())}


def modifies(p, i):
    if is_const_call(p, i):
        return False
    n = p.callee_name(i) or ''
    return n.rsplit('::', 1)[-1] not in PURE


def own_call(C, c, i):
    """a call of a method of the same object"""
    ts = C.p.targets(i)
    return bool(i.o) and i.o[0] == ('a', 0) and bool(ts) and C.derives(c, C.cls(ts[0]))


def is_ctor(C, c, f):
    return C.last(f).split('<')[0] == strip_t(c).rsplit('::', 1)[-1]


def changed_only(C, c, units):
    """members changed by something other than the functions that start an element"""
    return changed_units(C, c, units, True)


def changed_units(C, c, units, no_resets=False):
    """member -> (function, instruction) that changes it outside constructors"""
    p = C.p
    changed = {}
    for f in C.by[c]:
        l = C.last(f)
        if l.startswith('~') or l.startswith('operator=') or l.lower() == 'swap':
            continue
        ctor = is_ctor(C, c, f)
        if no_resets and l in RESET:
            continue
        if not ctor and only_from_ctor(C, c, f):
            continue
        for i in f.all():
            if i.op == 'store' and not ctor:
                u = unit_of(f, i.o[1], units)
                if u and u != '*':
                    changed.setdefault(u, (f, i))
            elif i.op in ('call', 'invoke') and modifies(p, i):
                ca = const_args(p, i)
                for n, v in enumerate(i.o):
                    if n in ca:
                        continue
                    if n == 0 and (ctor or own_call(C, c, i)):
                        continue        # construction of the member itself; a call on the same object
                    if v[0] == 'i' and mod.isptr(f, v):
                        u = unit_of(f, v, units)
                        if u and u != '*':
                            changed.setdefault(u, (f, i))
            elif i.op == 'ret' and not ctor and i.o and f.rty == 'ptr' and not (f.dem or '').endswith(' const'):
                u = unit_of(f, i.o[0], units)
                if u and u != '*':
                    changed.setdefault(u, (f, i))
    return changed


def run(ctx):
    p = ctx.prog
    ctx.rule('For every element parser class and every member of it that is changed outside its constructors (stored '
             'to, handed by address to something that may modify it, or exposed for modification): the member must be '
             'written again on every successful path of each function that starts a new element (Init, the start '
             'after a seek; for the document, the restart after a seek), following calls on the same object. A parser '
             'whose parsing is delegated to another element parser must also delegate the hand-over of a header read '
             'too far and the answer whether the element was skipped.')
    C = Classes(p)
    n_cls = n_ob = n_del = 0
    for c in sorted(C.by):
        doc = []
        if any(C.last(f) == 'Feed' for f in C.by[c]):
            doc = [f for f in C.by[c] if C.last(f) == 'DidSeek' and not f.virtual]
            if not doc:         # folded into the owner's function
                doc = [f for f in C.by.get(c.rpartition('::')[0], []) if C.last(f) == 'DidSeek']
        elem = C.derives(c, 'webm::ElementParser')
        if c == 'webm::ElementParser' or not (elem or doc):
            continue
        fields = C.fields(c)
        units = [(m[1], m[2], m[3]) for m in fields]
        n_cls += 1
        starts = [(C.last(f), f) for f in C.by[c] if C.last(f) in RESET] if elem else [('DidSeek', doc[0])]
        changed = changed_units(C, c, units)
        own_init = any(l == 'Init' for l, _ in starts)
        if elem and changed and not own_init:
            # a class that only adds members: something must start them
            for u, (f, i) in sorted(changed.items()):
                ctx.oblig(False)
                ctx.report('%s:%s:none' % (strip_t(c), u), '%s:%s' % (f.file, f.line),
                           '%s changes %s while it parses, and has no function of its own that starts an element' % (f.clean[:80], u))
            continue
        for l, f in starts:
            via = None
            if C.cls(f) != c:
                own = [m for m in C.fields(C.cls(f)) if 'unique_ptr' in str(m[4]) or str(m[4]).endswith('*')]
                via = own[0][2] if own else None
            w = must(C, c, f, units, via=via)
            ctx.count('start functions')
            done = set()
            for grp, why in GROUPS.get((strip_t(c), l), []):
                if not grp <= set(changed) | w:
                    continue
                n_ob += 1
                done |= grp
                ok = any_of(C, c, f, units, grp)
                ctx.oblig(ok)
                ctx.assume('%s: %s' % (strip_t(c), why))
                if not ok:
                    ctx.report('%s:%s:%s' % (strip_t(c), l, '+'.join(sorted(grp))), '%s:%s' % (f.file, f.line),
                               '%s can start an element without setting any of %s' % (f.clean[:80], ', '.join(sorted(grp))))
            for u, nst, why in COMPUTED.get((strip_t(c), l), []):
                if u in changed and u not in w:
                    n_ob += 1
                    done.add(u)
                    ok = stored_parts(C, c, u, units) >= nst
                    ctx.oblig(ok)
                    ctx.assume('%s: %s' % (strip_t(c), why))
                    if not ok:
                        ctx.report('%s:%s:%s' % (strip_t(c), l, u), '%s:%s' % (f.file, f.line),
                                   '%s does not reset %s, and not every part of it is stored while parsing' % (f.clean[:80], u))
            for u in sorted(set(changed) - done):
                ty = [m[4] for m in fields if m[1] == u][0]
                if C.last(changed[u][0]) in RESET and 'unique_ptr' in str(ty) and u not in changed_only(C, c, units):
                    continue            # made on demand, kept from then on
                n_ob += 1
                ok = u in w
                ctx.oblig(ok)
                g, i = changed[u]
                if not ok:
                    ctx.report('%s:%s:%s' % (strip_t(c), l, u), '%s:%s' % (f.file, f.line),
                               '%s can start an element without resetting %s, which %s changes'
                               % (f.clean[:80], u, g.clean[:80]))
            ctx.sample('%s::%s resets %s' % (c, l, ', '.join(sorted(set(changed) & w))))
        if elem:
            n_del += delegation(ctx, C, c)
    ctx.count('parser classes', n_cls)
    ctx.need('parser classes', n_cls, 40)
    ctx.need('members reset', n_ob, 150)
    ctx.need('delegating parsers', n_del, 3)


def any_of(C, c, f, units, grp):
    """every successful path writes at least one member of the group"""
    merged = [('+', o, s) if n in grp else (n, o, s) for n, o, s in units]
    return '+' in must(C, c, f, merged)


def stored_parts(C, c, u, units):
    lo, sz = [(o, s) for n, o, s in units if n == u][0]
    offs = set()
    for f in C.by[c]:
        if C.last(f) in RESET:
            continue
        for i in f.all():
            if i.op == 'store' and unit_of(f, i.o[1], units) == u:
                offs.add(ir.terms(f).split(i.o[1])[1])
    return len(offs)


def delegation(ctx, C, c):
    """a parser that leaves its work to another element parser which may read too far or be skipped"""
    p = C.p
    feeds = [f for f in C.by[c] if C.last(f) == 'Feed']
    if not feeds or c == 'webm::MasterParser':
        return 0
    inner = set()
    for i in feeds[0].calls():
        vm = p.vmethod(i) if not i.callee else None
        ts = [t for t in p.targets(i) if C.last(t) == 'Feed' and C.derives(C.cls(t), 'webm::ElementParser')]
        if ts and C.cls(ts[0]) not in C.bases(c) and not C.derives(c, C.cls(ts[0])):
            inner |= {C.cls(t) for t in ts}
    if not inner:
        return 0
    for m in ('GetCachedMetadata', 'WasSkipped'):
        need = [k for k in inner if overrides(C, k, m)]
        if not need:
            continue
        mine = [f for f in C.by[c] if C.last(f) == m]
        ok = bool(mine)
        if ok and m == 'GetCachedMetadata':
            ok = any(C.last(t) == m for i in mine[0].calls() for t in p.targets(i))
        ctx.oblig(ok)
        if not ok:
            ctx.report('%s:%s' % (strip_t(c), m), '%s:%s' % (feeds[0].file, feeds[0].line),
                       '%s leaves the element to %s but does not pass on %s' % (c[:80], need[0][:80], m))
    return 1


def overrides(C, k, m, depth=0):
    if k == 'webm::ElementParser' or depth > 12:
        return False
    if any(C.last(f) == m for f in C.by.get(k, [])):
        return True
    return any(overrides(C, b, m, depth + 1) for b in C.bases(k))


def only_from_ctor(C, c, f, depth=0):
    """helper called only by constructors"""
    callers = []
    for g in C.fns:
        for i in g.calls():
            if i.callee == f.name:
                callers.append(g)
    if not callers or f.virtual:
        return False
    for g in callers:
        l = C.last(g)
        if l.split('<')[0] == strip_t(C.cls(g)).rsplit('::', 1)[-1]:
            continue
        return False
    return True


def must(C, c, f, units, depth=0, via=None):
    """units written on every successful path of f (a method of the object itself)"""
    p = C.p
    if depth > 6:
        return set()
    allu = {n for n, _, _ in units}
    result = None
    work = [(0, None, frozenset())]
    seen = set()
    while work:
        b, pb, w = work.pop()
        if (b, pb, w) in seen:
            continue
        seen.add((b, pb, w))
        w = set(w)
        for i in f.blocks[b]:
            if i.op == 'store':
                u = unit_of(f, i.o[1], units, via)
                if u and u != '*' and (via is None or ir.terms(f).split(i.o[1])[0] != ('a', 0)):
                    w.add(u)
            elif i.op in ('call', 'invoke'):
                if (i.callee or '').startswith('llvm.mem'):
                    T = ir.terms(f)
                    bb, off, var = T.split(i.o[0])
                    if bb == ('a', 0) and not var and i.o[2][0] == 'k':
                        w |= {n for n, o, s in units if off <= o and o + s <= off + int(i.o[2][1])}
                    continue
                if is_const_call(p, i):
                    continue
                ca = const_args(p, i)
                for n, v in enumerate(i.o):
                    if n in ca or v[0] not in 'ia' or not mod.isptr(f, v):
                        continue
                    u = unit_of(f, v, units)
                    if v == ('a', 0) and v == i.o[0] and own_call(C, c, i):
                        for t in p.targets(i)[:1]:
                            l = C.last(t)
                            if l.startswith('operator='):
                                w |= allu
                            else:
                                w |= must(C, c, t, units, depth + 1)
                    elif u and u != '*':
                        w.add(u)
        t = f.blocks[b][-1]
        if t.op == 'ret':
            bad = False
            if t.o and depth == 0:
                v = t.o[0]
                if v[0] == 'k':
                    bad = int(v[1]) != 0
                elif v[0] == 'i' and f.inst(v).op == 'phi' and f.inst(v) in f.blocks[b]:
                    for x, q in f.inst(v).phi:
                        if q == pb and x[0] == 'k' and int(x[1]) != 0:
                            bad = True
            if not bad:
                result = w if result is None else result & w
        for s in f.succs(b):
            work.append((s, b, frozenset(w)))
    return result or set()

