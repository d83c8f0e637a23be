"""C11: indexes stay inside the arrays, for accessors, loops and growth."""
import re

import bounds
import ir
import mod
import own

Z = bounds.Z


class Arr:
    def __init__(self, cls, arr, count, cap, low=0, exact=True, mincap=0, also=(), only=None):
        self.only = only        # functions whose accesses are decided (the rest rest on binary searches or cached indexes)
        self.also = also        # further counts of valid elements
        self.mincap = mincap    # least capacity once the count is not negative
        self.cls, self.arr, self.count, self.cap, self.low, self.exact = cls, arr, count, cap, low, exact


M, P = 'mkvmuxer::', 'mkvparser::'
ARRAYS = [
    Arr(M + 'Cues', 'cue_entries_', 'cue_entries_size_', 'cue_entries_capacity_'),
    Arr(M + 'Track', 'content_encoding_entries_', 'content_encoding_entries_size_', 'content_encoding_entries_size_'),
    Arr(M + 'Tracks', 'track_entries_', 'track_entries_size_', 'track_entries_size_'),
    Arr(M + 'Chapter', 'displays_', 'displays_count_', 'displays_size_'),
    Arr(M + 'Chapters', 'chapters_', 'chapters_count_', 'chapters_size_'),
    Arr(M + 'Tag', 'simple_tags_', 'simple_tags_count_', 'simple_tags_size_'),
    Arr(M + 'Tags', 'tags_', 'tags_count_', 'tags_size_'),
    Arr(M + 'Segment', 'cluster_list_', 'cluster_list_size_', 'cluster_list_capacity_'),
    Arr(M + 'Segment', 'frames_', 'frames_size_', 'frames_capacity_'),
    Arr(P + 'Chapters', 'm_editions', 'm_editions_count', 'm_editions_size'),
    Arr(P + 'Chapters::Edition', 'm_atoms', 'm_atoms_count', 'm_atoms_size'),
    Arr(P + 'Chapters::Atom', 'm_displays', 'm_displays_count', 'm_displays_size'),
    Arr(P + 'Tags', 'm_tags', 'm_tags_count', 'm_tags_size'),
    Arr(P + 'Tags::Tag', 'm_simple_tags', 'm_simple_tags_count', 'm_simple_tags_size'),
    Arr(P + 'Cluster', 'm_entries', 'm_entries_count', 'm_entries_size', low=-1, mincap=1),
    Arr(P + 'SeekHead', 'm_entries', 'm_entry_count', 'm_entry_count', exact=False),
    Arr(P + 'SeekHead', 'm_void_elements', 'm_void_element_count', 'm_void_element_count', exact=False),
    Arr(P + 'Block', 'm_frames', 'm_frame_count', 'm_frame_count', exact=False),
    Arr(P + 'Cues', 'm_cue_points', 'm_count', 'm_count', exact=False, also=(('m_preload_count',), ('m_count', 'm_preload_count')),
        only=('GetNext', 'GetLast', 'GetFirst', 'LoadCuePoint')),
    Arr(P + 'Segment', 'm_clusters', 'm_clusterCount', 'm_clusterSize', exact=False, also=(('m_clusterCount', 'm_clusterPreloadCount'),),
        only=('GetLast', 'GetFirst')),
    Arr(P + 'CuePoint', 'm_track_positions', 'm_track_positions_count', 'm_track_positions_count', exact=False),
]
# begin / end pointer pairs
RANGES = [(P + 'Tracks', 'm_trackEntries', 'm_trackEntriesEnd'),
          (P + 'Track', 'content_encoding_entries_', 'content_encoding_entries_end_'),
          (P + 'ContentEncoding', 'compression_entries_', 'compression_entries_end_'),
          (P + 'ContentEncoding', 'encryption_entries_', 'encryption_entries_end_')]
BYARR = {(a.cls, a.arr): a for a in ARRAYS}
FIELD = {}
for _a in ARRAYS:
    for _n in {_a.count, _a.cap, _a.arr}:
        FIELD.setdefault((_a.cls, _n), []).append(_a)
# helpers whose caller has to have made room for one more entry
ROOM = {P + 'Cluster::CreateBlockGroup': (P + 'Cluster', 'm_entries'),
        P + 'Cluster::CreateSimpleBlock': (P + 'Cluster', 'm_entries')}
# accesses this analysis does not decide
OPEN = {
    ('_ZNK9mkvparser7Cluster8GetEntryEPKNS_5TrackEx', 'm_entries'): 'relies on a successful Parse having added an entry',
    ('_ZNK9mkvparser7Cluster8GetEntryERKNS_8CuePointERKNS1_13TrackPositionE', 'm_entries'): 'relies on a successful Parse having added an entry',
    ('_ZNK9mkvparser7Cluster7GetNextEPKNS_10BlockEntryERS3_', 'm_entries'): 'relies on a successful Parse having added an entry and on the index kept in the entry',
    ('_ZNK9mkvparser5Block8GetFrameEi', 'm_frames'): 'returns a reference: the index is a documented precondition of the caller',
}
RBY = {(c, b): e for c, b, e in RANGES}


def at(n, name):
    """the node of another field of the same object at the same time"""
    c = n[-1]
    return n[:-1] + ((c[0], c[1][:-1] + (name,), c[2]),)


def entry_facts(fp, n):
    """class invariants: what a field holds on entry and after a call"""
    c = n[-1]
    out = []
    rm = ROOM.get(fp.f.clean)
    if rm and n[0] == 'entry' and c[2] == rm[0] and c[0] == ('a', 0):
        a = BYARR[rm]
        if c[1] in ((a.count,), (a.cap,)):
            out += [(at(n, a.count), at(n, a.cap), -1), (Z, at(n, a.count), 0)]
    for a in FIELD.get((c[2], c[1][-1] if c[1] else None), ()):
        if n[0] == 'post':
            # all fields of the array have to come from the same call
            ok = True
            for nm in {a.count, a.cap}:
                i = fp.f.insts[n[1]]
                if fp.writes(i, (c[0], c[1][:-1] + (nm,), c[2])) is None:
                    ok = False
            if not ok:
                continue
        cn, cp = at(n, a.count), at(n, a.cap)
        out += [(Z, cn, -a.low), (Z, cp, -a.mincap)]
        if cn != cp:
            out.append((cn, cp, 0))
    return out


def size_of(fp, al):
    """number of elements (node, offset) of a new array, or None"""
    f = fp.f
    nm = fp.prog.callee_name(al)
    if 'SafeArrayAlloc' in nm:
        n, o = fp.node(al.o[0])
        if n == bounds.Z and o == 1:
            return fp.node(al.o[1])
        return None
    if not own.is_alloc(al):
        return None
    v = al.o[0]
    cookie = None
    for _ in range(10):
        while v[0] == 'i' and f.inst(v).op in ('zext', 'sext', 'freeze', 'trunc', 'extractvalue'):
            v = f.inst(v).o[0]
        if v[0] != 'i':
            return fp.node(v)
        i = f.inst(v)
        if i.op == 'select' and (i.o[1][0] == 'k' or i.o[2][0] == 'k'):
            v = i.o[2] if i.o[1][0] == 'k' else i.o[1]
        elif i.op in ('call', 'invoke') and 'uadd.with.overflow' in (i.callee or ''):
            v = i.o[0]
            cookie = v
        elif i.op in ('call', 'invoke') and 'umul.with.overflow' in (i.callee or ''):
            return fp.node(i.o[0] if i.o[1][0] == 'k' else i.o[1])
        elif i.op in ('mul', 'shl') and i.o[1][0] == 'k':
            return fp.node(i.o[0])
        elif i.op == 'add' and i.o[1][0] == 'k' and int(i.o[1][1]) == 8 and i.o[0][0] == 'i' and f.inst(i.o[0]).op in ('mul', 'shl'):
            v = i.o[0]
        else:
            return fp.node(v)
    return None


def mode(f, i):
    """'cap' when the place is filled here (a new last element), 'count' when the element is read or handed out"""
    for u in f.uses().get(i.id, []):
        if u.op == 'store' and u.o[1] == ('i', i.id):
            return 'cap'
        if u.op in ('call', 'invoke') and ('i', i.id) in u.o:
            return 'cap'
        if u.op == 'getelementptr' and u.off is not None and mode(f, u) == 'cap':
            return 'cap'
    return 'count'


def deref(p, f, i):
    """[(block, next block or None)]: where the address is used to reach the element or handed out
    (not just compared, walked from or used as the end of a range)"""
    out = []
    me = ('i', i.id)
    for u in f.uses().get(i.id, []):
        if u.op == 'ret':
            out.append((u.bb, None))
        elif u.op == 'phi' and any(w.op == 'ret' for w in f.uses().get(u.id, [])):
            out += [(pb, u.bb) for x, pb in u.phi if x == me]
        elif u.op in ('load', 'store') and me == (u.o[0] if u.op == 'load' else u.o[1]):
            out.append((u.bb, None))
        elif u.op in ('call', 'invoke') and me in u.o and (u.o[0] == me or any(g.repo for g in p.targets(u))):
            out.append((u.bb, None))
        elif u.op == 'getelementptr' and u.off is not None and u.o[0] == me:
            out += deref(p, f, u)
        elif u.op == 'select' and me in u.o[1:]:
            out.append((i.bb, None))
    return sorted(set(out), key=str)


def cookie(f, x):
    """number of elements kept in front of an array by the compiler"""
    while x[0] == 'i' and f.inst(x).op in ('zext', 'sext', 'trunc'):
        x = f.inst(x).o[0]
    if x[0] != 'i' or f.inst(x).op != 'load':
        return False
    return ir.terms(f).split(f.inst(x).o[0])[1] == -8


class Len:
    """is an index below the number of elements behind a pointer?"""

    def __init__(self, fp, mode='cap', pts=()):
        self.fp = fp
        self.f = fp.f
        self.mode, self.pts = mode, pts     # 'count': has to be one of the elements in use (at one of the points)

    def below(self, ptr, idx, b, extra=(), nullok=True, seen=(), depth=0):
        """idx (node, off) < elements behind the pointer node, at block b; None: pointer not understood"""
        fp = self.fp
        if depth > 12:
            return None
        if ptr == Z:
            return True if nullok else fp.prove(idx, (Z, 0), -1, b, extra)
        if ptr[0] == '&':
            # array cookie in front of the elements
            if ptr[1][0] == 'v' and own.is_alloc(self.f.insts[ptr[1][1]]):
                return self.below(ptr[1], idx, b, extra, nullok, seen, depth + 1)
            return None
        if ptr[0] in ('entry', 'post'):
            c = ptr[-1]
            a = BYARR.get((c[2], c[1][-1] if c[1] else None))
            if a is not None:
                if ptr[0] == 'post' and fp.writes(self.f.insts[ptr[1]], (c[0], c[1][:-1] + (a.cap,), c[2])) is None:
                    return None
                if self.mode == 'cap':
                    return fp.prove(idx, (at(ptr, a.cap), 0), -1, b, extra)
                for bb, ix in self.pts:
                    for names in ((a.count,),) + tuple(a.also):
                        vs = [fp.version((c[0], c[1][:-1] + (nm,), c[2]), bb, ix) for nm in names]
                        lim = vs[0] if len(vs) == 1 else (('+',) + tuple(sorted((vs[0][0], vs[1][0]), key=str)), vs[0][1] + vs[1][1])
                        if fp.prove(idx, lim, -1, b, extra):
                            return True
                return False
            e = RBY.get((c[2], c[1][-1] if c[1] else None))
            if e is not None:
                end = at(ptr, e)
                for k in (8, 4, 2, 1, 16):
                    if fp.prove(idx, (('dist', end, ptr, k), 0), -1, b, extra):
                        return True
                return False
            return None
        if ptr[0] in ('v', 'cphi'):
            B = fp.phi_block(ptr)
            if B is not None:
                key = (ptr, idx)
                if key in seen:
                    return True
                ins = fp.phi_in(ptr, B)
                ix = fp.phi_in(idx[0], B)
                w = fp.where(idx[0])
                keep = ix is None and w is not None and (w == B or not self.f.dominates(w, B))
                res = True
                live = any(t[0] == 'ne' and {t[1], t[2]} == {ptr, Z} and t[3] == 0 for t in list(fp.facts(b)) + list(extra))
                for pb, (n, o) in ins.items():
                    if pb not in self.f.idom() or live and n == Z and o == 0:
                        continue
                    if keep:
                        # the index is computed later: what is known about it now, and about the pointer then
                        r = self.below(n, idx, b, list(extra) + fp.edge_facts(pb, B), nullok, seen + (key,), depth + 1)
                    else:
                        i2 = (ix[pb][0], ix[pb][1] + idx[1]) if ix else idx
                        r = self.below(n, i2, pb, fp.edge_facts(pb, B) + (self.stable(fp.facts(b), B) if not ix else []),
                                       nullok, seen + (key,), depth + 1)
                    if r is not True:
                        return r
                return res
            i = self.f.insts[ptr[1]]
            if i.op in ('call', 'invoke'):
                s = size_of(fp, i)
                if s is not None:
                    return fp.prove(idx, s, -1, b, extra)
        return None

    def stable(self, facts, B):
        out = []
        for t in facts:
            ns = [x for x in t[:3] if isinstance(x, tuple)]
            if all(self.fp.where(n) is None or (self.fp.where(n) != B and self.f.dominates(self.fp.where(n), B)) for n in ns):
                out.append(t)
        return out


class Check:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.prog
        self.P = bounds.Prover(self.p, entry_facts, self.post)
        self.grow = {}

    def post(self, fp, call, how):
        """what a call guarantees about the arrays when it reports success"""
        out = []
        for g in self.p.targets(call):
            if not g.repo or g.decl or not call.o:
                continue
            for a in ARRAYS:
                if a.cls != g.cls or a.count == a.cap or how != 'true':
                    continue
                if self.grows(g, a):
                    c = fp.base(call.o[0])
                    full = self.full(fp, call.o[0], a)
                    if full is None:
                        continue
                    cn = fp.version((full[0], full[1] + (a.count,), a.cls), call.bb, call.idx + 1)
                    cp = fp.version((full[0], full[1] + (a.cap,), a.cls), call.bb, call.idx + 1)
                    out.append((cn[0], cp[0], -1 - cn[1] + cp[1]))
        return out

    def full(self, fp, obj, a):
        b, off, var = fp.T.split(obj)
        if off or var:
            return None
        return (fp.base(b), ())

    def grows(self, g, a):
        """does success of g mean that there is room for one more?"""
        k = (g.name, a.arr)
        if k in self.grow:
            return self.grow[k]
        self.grow[k] = False
        if not any(('f', a.cls, n) in mod.summaries(self.p).get(g.name, ()) for n in (a.cap, a.arr)):
            return False
        fp = self.P.on(g)
        ok = bool(g.rets())
        for r in g.rets():
            cn = fp.version(((('a', 0)), (a.count,), a.cls), r.bb, r.idx)
            cp = fp.version(((('a', 0)), (a.cap,), a.cls), r.bb, r.idx)
            if not r.o:
                ok = False
                break
            for b, mg, ex in success(fp, r.o[0], r.bb):
                if not at_edge(fp, cn, cp, -1, b, mg, ex):
                    ok = False
                    break
            if not ok:
                break
        self.grow[k] = ok
        return ok


def success(fp, v, B, depth=0):
    """[(block, [(pred, merge block)], facts)] of the ways the value gets true, as seen from block B"""
    f = fp.f
    while v[0] == 'i' and f.inst(v).op in ('zext', 'freeze', 'trunc'):
        v = f.inst(v).o[0]
    if v[0] == 'k':
        return [(B, [], [])] if int(v[1]) != 0 else []
    if v[0] == 'i' and f.inst(v).op == 'phi' and depth < 6:
        i = f.inst(v)
        out = []
        for x, pb in i.phi:
            for b2, ch, fs in success(fp, x, pb, depth + 1):
                out.append((b2, [(pb, i.bb)] + ch, fs + (fp.edge_facts(pb, i.bb) if b2 == pb else [])))
        return out
    return [(B, [], fp.cond_facts(v, True))]


def at_edge(fp, u, v, c, b, chain, facts):
    """u - v <= c where u, v are versions after the merge blocks, coming from block b"""
    for pb, merge in chain:
        iu, iv = fp.phi_in(u[0], merge), fp.phi_in(v[0], merge)
        if iu and pb in iu:
            u = (iu[pb][0], iu[pb][1] + u[1])
        if iv and pb in iv:
            v = (iv[pb][0], iv[pb][1] + v[1])
    return fp.prove(u, v, c, b, facts)


def reaches(f, a, b):
    seen, st = set(), [a]
    while st:
        x = st.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x)
            st.extend(f.succs(x))
    return False


def scope(f):
    return f.file.startswith(('mkvmuxer/', 'mkvparser/')) and not f.decl


def run(ctx):
    p = ctx.prog
    ctx.rule('Every computed index into a growable or counted array of the muxer and parser classes is proved non-negative and '
             'below the number of elements in use (below the allocated size where a new last element is filled), from the '
             'branch conditions, definitions and field versions that hold there; every update of such an array is proved to '
             'keep lowest <= count <= size and size <= allocated elements.')
    ctx.assume('integers do not wrap (counts stay far below the limits of their types)')
    ctx.assume('writes inside standard containers do not reach fields of the library classes')
    ck = Check(ctx)
    nacc = 0
    for f in p.repo_fns(scope):
        fp = None
        T = ir.terms(f)
        for i in f.all():
            if i.op != 'getelementptr' or i.off is not None or i.voff is None or len(i.voff) != 1:
                continue
            fp = fp or ck.P.on(f)
            ptr = fp.node(i.o[0])
            if ptr[1]:
                continue
            x, sz = i.voff[0]
            idx = fp.node(x)
            uns = x[0] == 'i' and f.inst(x).op == 'zext'
            # only pointers that lead to a known array
            if cookie(f, x):
                continue
            dps = deref(p, f, i)
            md = mode(f, i) if dps else 'cap'
            pts = [(i.bb, i.idx)] + [(r.bb, r.idx) for r in f.rets()]
            low = True
            if dps:
                r = True
                for B, nx in dps:
                    ex = fp.edge_facts(B, nx) if nx is not None else []
                    x1 = Len(fp, md, pts).below(ptr[0], idx, B, ex)
                    r = x1 if x1 is not True else r
                    low = low and (uns or fp.prove((Z, 0), idx, 0, B, ex))
            else:
                r = Len(fp, md, pts).below(ptr[0], (idx[0], idx[1] - 1), i.bb)
                low = uns or fp.prove((Z, 0), idx, 0, i.bb)
            if r is None:
                continue
            nacc += 1
            nm = arrname(fp, ptr[0])
            if (f.name, nm) in OPEN:
                ctx.oblig(n=1)
                ctx.undecided(['%s, %s: %s' % (i.loc, nm, OPEN[f.name, nm])])
                continue
            po = [a for a in ARRAYS if a.only is not None and a.arr == nm]
            if po and f.bname not in po[0].only:
                ctx.oblig(n=1)
                ctx.undecided(['%s, %s: index found by search or kept in an object' % (i.loc, nm)])
                continue
            ctx.oblig(n=1)
            if r is False:
                ctx.report('%s:%s' % (f.clean, nm), i.loc, '%s: index into %s is not shown to be below the number of elements' % (f.clean, nm))
            if not low and not po:
                ctx.report('%s:%s:neg' % (f.clean, nm), i.loc, '%s: index into %s is not shown to be non-negative' % (f.clean, nm))
    ctx.need('indexed accesses', nacc, 60)
    ninv = 0
    for f in p.repo_fns(scope):
        if f.bname.startswith('~'):
            continue
        fp = None
        for a in ARRAYS:
            if not a.exact:
                continue
            stores = [i for i in f.all() if i.op == 'store' and mod.fieldkey(f, i.o[1]) in {
                ('f', a.cls, a.arr), ('f', a.cls, a.count), ('f', a.cls, a.cap)}]
            if not stores:
                continue
            fp = fp or ck.P.on(f)
            bases = set()
            for s in stores:
                c = fp.cell(s.o[1])
                if c:
                    bases.add((c[0], c[1][:-1]))
            for b, pre in sorted(bases, key=str):
                blocks = sorted({s.bb for s in stores if (lambda c: c and (c[0], c[1][:-1]) == (b, pre))(fp.cell(s.o[1]))})
                for B in blocks:
                    ninv += 1
                    last = f.blocks[B][-1]
                    pts = [(B, len(f.blocks[B]), last)] + [(r.bb, r.idx, r) for r in f.rets() if r.bb != B and reaches(f, B, r.bb)]
                    cell = lambda n: (b, pre + (n,), a.cls)

                    def holds(which, bb, idx):
                        cn = fp.version(cell(a.count), bb, idx)
                        cp = fp.version(cell(a.cap), bb, idx)
                        ar = fp.version(cell(a.arr), bb, idx)
                        if which == 0:
                            return fp.prove((Z, 0), cn, -a.low, bb)
                        if which == 1:
                            return fp.prove(cn, cp, 0, bb) and (fp.prove((Z, 0), cp, -a.mincap, bb) or fp.prove(cn, (Z, 0), -1, bb) or f.bname == a.cls.split('::')[-1])
                        return Len(fp).below(ar[0], (cp[0], cp[1] - 1), bb, nullok=False) is True
                    ctx.oblig(n=3)
                    where = [s for s in f.blocks[B] if s in stores][-1].loc
                    for which, text in ((0, 'may leave %s below %d' % (a.count, a.low)),
                                        (1, 'may leave %s above %s' % (a.count, a.cap)),
                                        (2, 'may leave %s above the number of elements of %s' % (a.cap, a.arr))):
                        if holds(which, *pts[0][:2]):
                            continue
                        if len(pts) > 1 and all(holds(which, x[0], x[1]) for x in pts[1:]):
                            continue
                        ctx.report('%s:%s:inv%d' % (f.clean, a.arr, which), where, '%s: %s' % (f.clean, text))
    for f in p.repo_fns(scope):
        for i in f.calls():
            for g in p.targets(i):
                rm = ROOM.get(g.clean)
                if not rm:
                    continue
                a = BYARR[rm]
                fp = ck.P.on(f)
                full = ck.full(fp, i.o[0], a)
                ctx.oblig(n=1)
                ok = False
                if full is not None:
                    cn = fp.version((full[0], full[1] + (a.count,), a.cls), i.bb, i.idx)
                    cp = fp.version((full[0], full[1] + (a.cap,), a.cls), i.bb, i.idx)
                    ok = fp.prove(cn, cp, -1, i.bb) and fp.prove((Z, 0), cn, 0, i.bb)
                if not ok:
                    ctx.report('%s:%s:room' % (f.clean, a.arr), i.loc, '%s: calls %s without room for another entry of %s' % (f.clean, g.clean, a.arr))
    ctx.need('updates checked against the invariant', ninv, 25)


def arrname(fp, n):
    for _ in range(6):
        if n[0] in ('entry', 'post', 'clob', 'cphi'):
            return n[-1][1][-1] if n[-1][1] else '?'
        ins = fp.phi_in(n, fp.phi_block(n)) if n[0] == 'v' and fp.phi_block(n) is not None else None
        if not ins:
            break
        known = [x for x, o in ins.values() if x[0] in ('entry', 'post', 'clob', 'cphi')]
        if not known:
            break
        n = known[0]
    return 'new array'
