"""C04: every element the muxer writes declares exactly the bytes it then writes."""
import bytesum as bs
import flow
import ir


def inns(f):
    return f.file.startswith('mkvmuxer/')


def roots(p, an):
    for f in p.repo_fns(inns):
        if not an.emits(f) or f.decl:
            continue
        if not f.cls and f.bname in ('WriteEbmlElement', 'WriteEbmlMasterElement', 'WriteEbmlDateElement', 'WriteID',
                                     'WriteUInt', 'WriteUIntSize', 'SerializeInt', 'SerializeFloat'):
            continue
        dyns = [f.cls]
        if f.cls:
            for d in p.derived(f.cls):
                c = d
                while c and c != f.cls:
                    if p.get(c + '::' + f.bname):
                        break
                    b = p.bases(c)
                    c = b[0][0] if b else None
                if c == f.cls:
                    dyns.append(d)
        for d in dyns:
            yield f, d


def rootframe(an, f, dyn):
    args = []
    for n, a in enumerate(f.args):
        pt = f.ptypes[n] if n < len(f.ptypes) else ''
        if a == 'this' or pt.endswith('IMkvWriter*'):
            args.append(('obj', a or 'a%d' % n))
        else:
            args.append(('arg', n, a or 'a%d' % n))
    return bs.Frame(an, f, args, dyn)

def run(ctx):
    p = ctx.prog
    an = bs.Analyzer(p, inns)
    ctx.rule('Every size value and every sequence of writes is turned into a guarded sum of items (element sizes, '
             'lengths, constants, with the branch conditions and loops they depend on; size functions and nested '
             'writers are expanded for every dynamic class). For each element header written, the sum declared in it '
             'must be the items written directly after it; a function that returns a byte count must return the sum '
             'of the items it wrote; a position difference must be compared with the sum of the items written in '
             'between; and each primitive element writer must write the number of bytes its size function returns.')
    und = []
    nroot = 0
    for f, d in roots(p, an):
        for variant in variants(an, f, d):
            an.dynmap = variant
            an.pending = {}
            nroot += 1
            check_root(ctx, an, f, d, und)
    ctx.need('writers analysed', nroot, 20)
    ctx.need('element headers compared', ctx.counts.get('element headers compared', 0), 20)
    primitives(ctx, an, und)
    widths(ctx, an, und)
    clusters(ctx, an, und)
    if und:
        ctx.undecided(dict.fromkeys(und))


def variants(an, f, d):
    """assignments of dynamic classes to the receivers of unresolved virtual calls"""
    an.dynmap, an.pending = {}, {}
    try:
        fr = rootframe(an, f, d)
        items(fr, fr.emitted())
    except bs.Unknown:
        pass
    if not an.pending:
        return [{}]
    out = [{}]
    for r, cs in an.pending.items():
        out = [dict(x, **{}) | {r: c} for x in out for c in sorted(cs)]
    return out[:16]


def items(fr, seq):
    """[(key->count dict, inst, frame, declared payload or None, kind)]"""
    out = []
    for a, i, f, v in seq:
        g, lp = f.full(i)
        if a[0] == 'pos':
            out.append((None, i, f, None, 'pos'))
            continue
        if a[0] == 'lin':
            if a[1][0] == 'k' and int(a[1][1]) == 1 and lp and f.loops_of(i.bb):
                # one byte per iteration of a counted loop
                h = [h for h, body in f.fn.loops().items() if i.bb in body]
                b = f.bound(h[0]) if len(h) == 1 else None
                v2 = bound_operand(f, h[0]) if b else None
                l = lin(f, v2, g, lp) if not (b and b[1][0] == 'k') else {0: (b[1][1], bs.ONE, g, lp[:-1])}
                lp = lp[:-1]
            else:
                l = lin(f, a[1], g, lp)
            d = {}
            for (x, xg, xl), c in bs.canon(l):
                xg = xg | bs.clean_guards(x, g)
                k = (bs.relative(x, xg, xl or lp), xg, xl or lp)
                d[k] = d.get(k, 0) + c
            out.append((d, i, f, None, 'raw'))
            continue
        d = {}
        for n, x in bs.units(a):
            gg = bs.clean_guards(x if a[0] == 'M' else a, g)
            k = (bs.relative(x, gg, lp), gg, lp)
            d[k] = d.get(k, 0) + n
        out.append((d, i, f, a[2] if a[0] == 'M' else None, 'void' if a == ('U', ('k', 0xEC)) else a[0]))
    return out


def lin(f, v, g, lp):
    try:
        if v is not None:
            return f.lin(v)
    except bs.Unknown:
        pass
    return {0: (1, bs.WILD, g, lp)}


def bound_operand(fr, h):
    f = fr.fn
    body = f.loops()[h]
    b = fr.bound(h)
    if b is None or b[1][0] == 'k':
        return None
    for x in sorted(body):
        t = f.blocks[x][-1]
        if t.op == 'br' and t.o and not all(s in body for s in t.succ) and t.o[0][0] == 'i':
            c = f.inst(t.o[0])
            if c.op == 'icmp':
                for o in c.o:
                    if fr.t(o) == b[1]:
                        return o
    return None


def strip(k, g, lp):
    a, kg, kl = k
    if kl[:len(lp)] == lp:
        kl = kl[len(lp):]
    return (a, kg - g, kl)


def norm(pay, g, lp):
    out = {}
    for k, c in (pay.items() if isinstance(pay, dict) else pay):
        k = strip(k, g, lp)
        out[k] = out.get(k, 0) + c
    return {k: c for k, c in out.items() if c}


def diff(a, b):
    """(only/more in a, only/more in b)"""
    x, y = {}, {}
    for k in set(a) | set(b):
        n = a.get(k, 0) - b.get(k, 0)
        if n > 0:
            x[k] = n
        elif n < 0:
            y[k] = -n
    return x, y


def match(fr, its, n, want, g, lp):
    """assign the items written after header n to the sum it declares: (left over, misfits, unknown, item numbers)"""
    ff = its[n][2]
    used = []
    left = dict(want)
    extra = []
    wild = False
    m = n + 1
    while m < len(its):
        kk = its[m]
        if kk[4] == 'pos':
            m += 1
            continue
        if not left and ff is not fr:
            break
        if not left and (n != first_header(its) or kk[4] == 'void'):
            break
        cur = norm(kk[0], g, lp)
        if any(bs.has_wild(x) for x in cur):
            wild = True
            break
        ok = all(left.get(x, 0) >= c for x, c in cur.items())
        if not ok:
            extra.append((cur, kk[1]))
            if not left:
                break
            # keep going: report everything that does not fit
            m += 1
            continue
        for x, c in cur.items():
            left[x] -= c
            if not left[x]:
                del left[x]
        used.append(m)
        m += 1
    return left, extra, wild, used


def check_root(ctx, an, f, d, und):
    fr = rootframe(an, f, d)
    try:
        its = items(fr, fr.emitted())
    except bs.Unknown as e:
        und.append('%s: %s' % (f.clean, e))
        return
    who = f.clean + (' (%s)' % d.split('::')[-1] if d and d != f.cls else '')
    for n, (k, i, ff, pay, kind) in enumerate(its):
        if kind != 'M':
            continue
        if ff is not fr and not base_chain(ff, fr):
            continue           # a header in another writer: compared there
        g, lp = ff.full(i)
        g = bs.clean_guards(('M',), g)
        if pay == bs.WILD or bs.has_wild(pay):
            und.append('%s: declared size of the element at %s is not a plain sum' % (who, i.loc))
            continue
        want = norm(pay, g, lp)
        if is_patch(want):
            continue
        left, extra, wild, _ = match(fr, its, n, want, g, lp)
        if wild:
            und.append('%s: an item written after %s is not understood' % (who, i.loc))
            continue
        ctx.count('element headers compared')
        ctx.oblig(not left and not extra)
        ctx.sample('%s: header at %s declares %d items, all written' % (who, i.loc, len(want)))
        if left or extra:
            msg = []
            if left:
                msg.append('declares but does not write: ' + '; '.join(show(x) for x in list(left)[:3]))
            if extra:
                msg.append('writes but does not declare: ' + '; '.join(
                    '%s at %s' % (', '.join(show(x) for x in c), ii.loc) for c, ii in extra[:3]))
            ctx.report('size:%s:%s' % (who, hid(i, ff)), i.loc, '%s: the element header %s' % (who, ' / '.join(msg)))
    returned(ctx, an, fr, who, its, und)
    positions(ctx, an, fr, who, its, und)


def hid(i, ff):
    for o in i.o:
        if o[0] == 'k' and int(o[1]) > 0x7f:
            return hex(int(o[1]))
    return ff.fn.bname


def first_header(its):
    for n, x in enumerate(its):
        if x[4] != 'pos':
            return n
    return -1


def is_patch(want):
    return False


def base_chain(ff, fr):
    """ff runs on the root object itself (base-class part of the same writer)"""
    return bool(ff.args) and bool(fr.args) and ff.args[0] == fr.args[0] and ff.fn.cls and fr.fn.cls and \
        ff.fn.cls != fr.fn.cls and ff.fn.cls in fr.fn.prog.all_bases(fr.fn.cls)


def total(its, lo=0, hi=None):
    out = {}
    for k, i, ff, pay, kind in its[lo:hi]:
        if kind == 'pos':
            continue
        for x, c in k.items():
            out[x] = out.get(x, 0) + c
    return out


def returned(ctx, an, fr, who, its, und):
    f = fr.fn
    if f.rty != 'i64' or not its or not an.is_size_fn(f):
        return
    try:
        r = bs.canon(fr.ret_lin())
    except bs.Unknown as e:
        und.append('%s: returned byte count: %s' % (who, e))
        return
    have = {k: c for k, c in total(its).items() if c}
    want = dict(r)
    if any(bs.has_wild(k) for k in list(have) + list(want)):
        und.append('%s: returned byte count is not a plain sum' % who)
        return
    a, b = diff(want, have)
    ctx.oblig(not a and not b)
    ctx.count('byte counts returned')
    if a or b:
        ctx.report('count:%s' % who, '%s:%s' % (f.file, f.line), '%s returns a byte count that %s' % (who, ' / '.join(
            ([ 'includes unwritten: ' + '; '.join(show(x) for x in list(a)[:3])] if a else []) +
            (['omits written: ' + '; '.join(show(x) for x in list(b)[:3])] if b else []))))


def positions(ctx, an, fr, who, its, und):
    f = fr.fn
    pos = {i.id: n for n, (k, i, ff, pay, kind) in enumerate(its) if kind == 'pos'}
    for c in f.all():
        if c.op != 'icmp' or c.pred not in ('eq', 'ne'):
            continue
        for x, y in ((c.o[0], c.o[1]), (c.o[1], c.o[0])):
            if x[0] != 'i':
                continue
            s = f.inst(x)
            if s.op != 'sub' or not all(o[0] == 'i' and o[1] in pos for o in s.o):
                continue
            hi, lo = pos[s.o[0][1]], pos[s.o[1][1]]
            try:
                want = dict(bs.canon(fr.lin(y)))
            except bs.Unknown as e:
                und.append('%s: %s' % (who, e))
                continue
            g, lp = fr.full(c)
            g = bs.clean_guards(('M',), g)
            have = norm(total(its, lo, hi), g, lp)
            want = norm(want, g, lp)
            if any(bs.has_wild(k) for k in list(have) + list(want)):
                und.append('%s: position check at %s not understood' % (who, c.loc))
                continue
            a, b = diff(want, have)
            ctx.oblig(not a and not b)
            ctx.count('position checks')
            if a or b:
                ctx.report('pos:%s' % who, c.loc, '%s compares the bytes written with a different amount: %s' % (
                    who, '; '.join(show(x) for x in (list(a) + list(b))[:3])))


PRIM = ('WriteEbmlElement', 'WriteEbmlDateElement', 'WriteEbmlMasterElement')


def primitives(ctx, an, und):
    """each WriteEbml*Element overload writes what its Ebml*ElementSize overload returns"""
    p = ctx.prog
    sizes = {}
    for f in p.repo_fns(inns):
        if not f.cls and f.bname in ('EbmlElementSize', 'EbmlDateElementSize', 'EbmlMasterElementSize'):
            sizes[(f.bname, tuple(an.overload(f, 0)))] = f
    npair = 0
    for f in p.repo_fns(inns):
        if f.cls or f.bname not in PRIM:
            continue
        sig = tuple(an.overload(f, 1))
        name = f.bname.replace('Write', '') + 'Size'
        if f.bname == 'WriteEbmlDateElement':
            sig = sig[:1]
        g = sizes.get((name, sig))
        if g is None:
            und.append('%s%s has no size counterpart' % (f.bname, sig))
            continue
        names = [('obj', 'writer')] + [('arg', n, n) for n in range(len(f.args) - 1)]
        wf = bs.Frame(Prim(an), f, names, None)
        sf = bs.Frame(Prim(an), g, names[1:1 + len(g.args)], None)
        try:
            its = items(wf, wf.emitted())
            want = dict(bs.canon(sf.ret_lin()))
        except bs.Unknown as e:
            und.append('%s: %s' % (f.clean, e))
            continue
        have = total(its)
        # the size field of a length that SerializeInt accepts (at most 8) is one byte
        ser = [frozenset(k.items()) for k, i, ff, pay, kind in its if kind == 'raw' and k and
               p.callee_name(i).endswith('SerializeInt')]
        have = fold(have, ser)
        want = drop_null(fold(want, ser))
        have = drop_null(have)
        npair += 1
        if any(bs.has_wild(k) for k in list(have) + list(want)):
            und.append('%s(%s): not a plain sum' % (f.clean, ', '.join(f.ptypes)))
            continue
        a, b = diff(want, have)
        ctx.oblig(not a and not b)
        ctx.count('primitive writers compared')
        if a or b:
            ctx.report('prim:%s:%s' % (f.bname, ''.join(sig)), '%s:%s' % (f.file, f.line),
                       '%s(%s) writes another number of bytes than %s returns: size has %s, written %s' % (
                           f.bname, ', '.join(f.ptypes), g.bname, '; '.join(show(x) for x in a) or '-',
                           '; '.join(show(x) for x in b) or '-'))
    ctx.need('primitive pairs', npair, 6)
    # the serialisers under them: number of bytes written
    for name, item, cut in (
            ('WriteID', ('U', ('arg', 0, 0)), ('SerializeInt',)),
            ('WriteUInt', ('C', frozenset({((('len', ('arg', 0, 0)), frozenset(), ()), 1)})), ('SerializeInt', 'WriteUIntSize')),
            ('SerializeInt', ('len', ('arg', 1, 1)), ()), ('SerializeFloat', ('len', ('k', 4)), ())):
        for f in p.get('mkvmuxer::' + name):
            names = [('obj', 'writer')] + [('arg', n, n) for n in range(len(f.args) - 1)]
            fr = bs.Frame(Cut(an, cut), f, names, None)
            try:
                have = total(items(fr, fr.emitted()))
            except bs.Unknown as e:
                und.append('%s: %s' % (f.clean, e))
                continue
            want = {}
            for n, x in bs.units(item):
                want[(x, frozenset(), ())] = n
            have = const_loops(have)
            if any(bs.has_wild(k) for k in have):
                und.append('%s: not a plain sum' % f.clean)
                continue
            a, b = diff(want, have)
            ctx.oblig(not a and not b)
            ctx.count('serialisers checked')
            if a or b:
                ctx.report('serial:%s' % name, '%s:%s' % (f.file, f.line), '%s writes another number of bytes: expected %s, '
                           'written %s' % (name, '; '.join(show(x) for x in want), '; '.join(
                               '%s x %s' % (show(x), n) for x, n in have.items())))
    for f in p.get('mkvmuxer::SerializeInt'):
        for lo, hi in ((9, None), (None, 0)):
            got = set()
            ex = flow.Explorer(f)
            try:
                for kind, r, st, tr in ex.run(f.blocks[0][0], None, env0={('a', 2): (lo, hi)}):
                    if kind == 'ret':
                        got.add(ex.val(r.o[0], st))
            except flow.TooMany:
                und.append('SerializeInt: too many paths')
                continue
            bad = [v for v in got if v is None or not (v[1] is not None and v[1] < 0)]
            ctx.oblig(not bad)
            if bad:
                ctx.report('serial:SerializeInt:range', '%s:%s' % (f.file, f.line),
                           'SerializeInt accepts a length of %s bytes' % (lo if lo else hi))


class Cut:
    def __init__(self, an, names):
        self.an, self.names = an, names

    def __getattr__(self, n):
        return getattr(self.an, n)

    def write_atom(self, g, args, fr, i):
        return self.an.write_atom(g, args, fr, i) if g.bname in self.names and not g.cls else None


def const_loops(d):
    out = {}
    for (a, g, lp), c in d.items():
        n = 1
        while lp and lp[-1][0] == 'k':
            n *= lp[-1][1]
            lp = lp[:-1]
        out[(a, g, lp)] = out.get((a, g, lp), 0) + c * n
    return out


class Prim:
    """analyzer view in which the primitives themselves are expanded"""

    def __init__(self, an):
        self.an = an

    def __getattr__(self, n):
        return getattr(self.an, n)

    def size_atom(self, g, args, fr, i):
        if not g.cls and g.bname in ('EbmlElementSize', 'EbmlDateElementSize', 'EbmlMasterElementSize'):
            return None
        return self.an.size_atom(g, args, fr, i)

    def is_size_fn(self, g):
        return not g.cls and g.bname in ('EbmlElementSize', 'EbmlDateElementSize', 'EbmlMasterElementSize') or \
            self.an.is_size_fn(g)

    def write_atom(self, g, args, fr, i):
        if not g.cls and g.bname in PRIM:
            return None
        return self.an.write_atom(g, args, fr, i)


def fold(d, ser):
    out = {}
    for (a, g, lp), c in d.items():
        if a[0] == 'C' and a[1] in ser:
            a = bs.ONE
        elif a[0] == 'C' and isinstance(a[1], frozenset) and len(a[1]) == 1:
            (x, xg, xl), c2 = list(a[1])[0]
            if c2 == 1 and x[0] in ('U', 'I') and not xl:
                a = bs.ONE         # a value of at most 8 bytes
        out[(a, g, lp)] = out.get((a, g, lp), 0) + c
    return out


def drop_null(d):
    """size functions answer 0 for a null pointer, writers refuse it; an empty buffer is refused too"""
    out = {}
    for (a, g, lp), c in d.items():
        g = frozenset(x for x in g if not (x[0] == 'cmp' and x[1] == 'ne' and x[3] == ('k', 0) and x[2][0] == 'arg'
                                           and x[2][1] == 1))
        out[(a, g, lp)] = out.get((a, g, lp), 0) + c
    return {k: c for k, c in out.items() if c}


def widths(ctx, an, und):
    """the length functions give enough bytes for the value, and the serialisers write that many"""
    p = ctx.prog
    for name, lim in (('GetUIntSize', lambda n: (1 << 8 * n) - 1), ('GetCodedUIntSize', lambda n: (1 << 7 * n) - 2)):
        for f in p.get('mkvmuxer::' + name):
            if f.rty not in ('i32', 'i64') or len(f.args) != 1:
                continue
            prev = -1
            rows = []
            for n in range(1, 9):
                hi = lim(n)
                rows.append((prev + 1, hi if n < 8 else (1 << 63) - 1, n))
                prev = hi
            for lo, hi, n in rows:
                got = set()
                ex = flow.Explorer(f)
                try:
                    for kind, r, st, tr in ex.run(f.blocks[0][0], None, env0={('a', 0): (lo, hi)}):
                        if kind == 'ret':
                            got.add(ex.val(r.o[0], st))
                except flow.TooMany:
                    got = {None}
                if not all(v is not None and v[0] is not None and v[0] == v[1] for v in got) or not got:
                    und.append('%s(%d..%d) not a constant' % (name, lo, hi))
                    continue
                bad = [v for v in got if v[0] != n]
                ctx.oblig(not bad)
                ctx.count('length classes checked')
                if bad:
                    ctx.report('width:%s' % name, '%s:%s' % (f.file, f.line), '%s gives %d bytes to values in %#x..%#x '
                               'that need %d' % (name, bad[0][0], lo, hi, n))
    # fixed-width size fields: reserved and patched with the same width
    ws = set()
    for f in p.repo_fns(inns):
        for c in f.calls():
            g = p.fn.get(c.callee) if c.callee else None
            if g is None or not g.repo or g.cls:
                continue
            if g.bname == 'WriteUIntSize' and c.o[2][0] == 'k':
                ws.add((int(c.o[2][1]), c.loc, f.clean))
            if g.bname == 'SerializeInt' and c.o[1][0] == 'k' and int(c.o[1][1]) == 0x01FFFFFFFFFFFFFF and c.o[2][0] == 'k':
                ws.add((int(c.o[2][1]), c.loc, f.clean))
    ctx.counts['reserved or patched size fields'] = len(ws)
    for w, loc, who in sorted(ws):
        ctx.oblig(w == 8)
        if w != 8:
            ctx.report('patch:%s' % who, loc, '%s writes a reserved size field of %d bytes; the others have 8' % (who, w))


def clusters(ctx, an, und):
    """the running payload size of a cluster grows by what was written"""
    p = ctx.prog
    t = 'mkvmuxer::Cluster'
    nadd = 0
    for f in p.repo_fns(inns):
        T = ir.terms(f)
        for s in f.all():
            if s.op != 'store':
                continue
            m = T.member(s.o[1])
            if m[2] != t or not m[1] or m[1][-1] != 'payload_size_':
                continue
            v = s.o[0]
            if v[0] == 'k':
                continue
            i = f.inst(v) if v[0] == 'i' else None
            if i is None or i.op != 'add':
                und.append('%s: payload size set at %s' % (f.clean, s.loc))
                continue
            for o in i.o:
                if o[0] == 'i' and f.inst(o).op == 'load' and T.member(f.inst(o).o[0])[1][-1:] == ['payload_size_']:
                    continue
                nadd += 1
                accounted(ctx, an, f, o, s, und, 0, set())
    if not nadd:
        und.append('no accounting of the cluster payload size found')


def accounted(ctx, an, f, v, at, und, depth, seen):
    """value v added to the payload size: bytes written in f, or handed in by callers that wrote them"""
    p = ctx.prog
    if v[0] == 'a':
        if (f.name, v[1]) in seen or depth > 5:
            return
        seen.add((f.name, v[1]))
        for g in p.repo_fns(inns):
            for c in g.calls():
                if c.callee == f.name:
                    accounted(ctx, an, g, c.o[v[1]], c, und, depth + 1, seen)
        return
    fr = rootframe(an, f, f.cls)
    i = f.inst(v) if v[0] == 'i' else None
    while i is not None and i.op in ('zext', 'sext', 'trunc'):
        v = i.o[0]
        i = f.inst(v) if v[0] == 'i' else None
    if i is not None and i.op in ('call', 'invoke'):
        g = fr.callee(i)
        if g is not None and an.emits(g) and g.rty == 'i64':
            ctx.oblig(True)
            ctx.count('payload increments')
            return
    try:
        want = norm(bs.canon(fr.lin(v)), frozenset(), ())
        have = norm(total(items(fr, fr.emitted())), frozenset(), ())
    except bs.Unknown:
        und.append('%s: payload size increment at %s' % (f.clean, at.loc))
        return
    if any(bs.has_wild(k) for k in list(want) + list(have)):
        und.append('%s: payload size increment at %s' % (f.clean, at.loc))
        return
    w2 = {}
    for (a, g, lp), c in want.items():
        w2[a] = w2.get(a, 0) + c
    h2 = {}
    for (a, g, lp), c in have.items():
        h2[a] = h2.get(a, 0) + c
    miss = [a for a, c in w2.items() if h2.get(a, 0) < c]
    ctx.oblig(not miss)
    ctx.count('payload increments')
    if miss:
        ctx.report('payload:%s' % f.clean, at.loc, '%s adds to the cluster payload size what it did not write: %s' % (
            f.clean, '; '.join(sh(a) for a in miss)))


def show(k):
    a, g, lp = k
    return '%s  if %s%s' % (sh(a), sorted(sh(x) for x in g), ' x' + sh(lp) if lp else '')


def sh(t):
    if isinstance(t, frozenset):
        return '{%s}' % ', '.join(sorted('%s*%s' % (c, show(k)) for k, c in t))
    if not isinstance(t, tuple) or not t:
        return str(t)
    h = t[0]
    if h == 'k':
        return str(t[1])
    if h in ('obj',):
        return t[1]
    if h == 'arg':
        return t[2]
    if h == '.':
        return '%s.%s' % (sh(t[1]), t[2])
    if h == '[]':
        return '%s[%s]' % (sh(t[1]), sh(t[2]))
    if h == 'cmp':
        return '%s %s %s' % (sh(t[2]), t[1], sh(t[3]))
    if h == 'call':
        return '%s(%s)' % (t[1].split('::')[-1], ', '.join(sh(x) for x in t[2:]))
    return '%s(%s)' % (h, ', '.join(sh(x) for x in t[1:])) if isinstance(h, str) else str(tuple(sh(x) for x in t))
