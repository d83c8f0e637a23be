"""C10: what is allocated is released exactly once, and not used afterwards."""
import ir
import own

# class: pointer members it owns ('*' elements are owned too); a class in [] has no releasing destructor: its
# holder disposes of it
OWNED = '''
mkvmuxer::Frame frame_ additional_
mkvmuxer::Cues cue_entries_*
mkvmuxer::ContentEncoding enc_key_id_
mkvmuxer::Track codec_id_ codec_private_ language_ name_ content_encoding_entries_*
mkvmuxer::Tracks track_entries_*
mkvmuxer::MasteringMetadata r_ g_ b_ white_point_
mkvmuxer::Colour mastering_metadata_
mkvmuxer::Projection private_data_
mkvmuxer::VideoTrack colour_ colour_space_ projection_
mkvmuxer::Chapters chapters_
[mkvmuxer::Chapter] displays_ id_
[mkvmuxer::Chapter::Display] title_ language_ country_
mkvmuxer::Tags tags_
[mkvmuxer::Tag] simple_tags_
[mkvmuxer::Tag::SimpleTag] tag_name_ tag_string_
mkvmuxer::SegmentInfo muxing_app_ writing_app_
mkvmuxer::Segment chunk_name_ chunking_base_name_ chunk_writer_cluster_ chunk_writer_cues_ chunk_writer_header_ cluster_list_* frames_*
mkvparser::EBMLHeader m_docType
mkvparser::Block m_frames
mkvparser::Chapters m_editions
[mkvparser::Chapters::Edition] m_atoms
[mkvparser::Chapters::Atom] m_displays m_string_uid
[mkvparser::Chapters::Display] m_string m_language m_country
mkvparser::Tags m_tags
[mkvparser::Tags::Tag] m_simple_tags
[mkvparser::Tags::SimpleTag] m_tag_name m_tag_string
mkvparser::Cluster m_entries*
mkvparser::MasteringMetadata r g b white_point
mkvparser::Colour mastering_metadata
mkvparser::Projection private_data
mkvparser::VideoTrack m_colour m_colour_space m_projection
mkvparser::ContentEncoding compression_entries_* encryption_entries_*
mkvparser::ContentEncoding::ContentCompression settings
mkvparser::ContentEncoding::ContentEncryption key_id signature sig_key_id
mkvparser::CuePoint m_track_positions
mkvparser::Cues m_cue_points*
mkvparser::SeekHead m_entries m_void_elements
mkvparser::Segment m_clusters* m_pChapters m_pCues m_pInfo m_pSeekHead m_pTags m_pTracks
mkvparser::SegmentInfo m_pMuxingAppAsUTF8 m_pTitleAsUTF8 m_pWritingAppAsUTF8
mkvparser::Track content_encoding_entries_*
mkvparser::Track::Info nameAsUTF8 language codecId codecNameAsUTF8 codecPrivate
mkvparser::Tracks m_trackEntries*
'''
# functions that fill members of an object that has just been made: the caller is checked instead
FILLS = {'mkvparser::Block::Parse': 'm_frames',
         'mkvparser::SimpleBlock::Parse': 'm_frames',
         'mkvparser::BlockGroup::Parse': 'm_frames',
         'mkvparser::Tracks::Parse': 'm_trackEntries', 'mkvparser::SeekHead::Parse': 'm_entries m_void_elements',
         'mkvparser::Track::ParseContentEncodingsEntry': 'content_encoding_entries_',
         'mkvparser::ContentEncoding::ParseContentEncodingEntry': 'compression_entries_ encryption_entries_'}

# a negative count means there is no array yet
INV = {('mkvparser::Cluster', 'm_entries_count'): 'm_entries'}


def scope(f):
    return f.file.startswith(('mkvparser/', 'mkvmuxer/', 'common/', 'webvtt/', 'm2ts/', 'webm_parser/src',
                              'webm_parser/include')) and 'test' not in f.file


def table(p):
    owned, elems, manual = {}, set(), set()
    for l in OWNED.strip().splitlines():
        w = l.split()
        c = w[0].strip('[]')
        if c not in p.types:
            continue
        have = {m[1]: m[4] for m in p.fields(c)}
        if w[0].startswith('['):
            manual.add(c)
        for m in w[1:]:
            n = m.rstrip('*')
            if n in have and have[n].endswith('*'):
                owned[(c, n)] = m.endswith('*')
                if m.endswith('*'):
                    elems.add((c, n))
    return owned, elems, manual


def run(ctx):
    p = ctx.prog
    ctx.rule('Every allocation, and every call that hands one up, is followed over all feasible paths until the pointer '
             'is released, stored in an object, handed on or returned; a return before that is a leak. For each owned '
             'pointer member a forward dataflow over {live, null, released, moved} requires that a store does not '
             'overwrite a live value, that a released value is replaced before the function returns, that it is not '
             'released twice, and that the destructor (or the disposing function called from one) leaves nothing live. '
             'No path uses a pointer after releasing it.')
    o = own.Own(p, scope)
    n = 0
    for f in o.fns:
        for i, tok, given, what, rs in o.results[f.name]:
            n += 1
            ctx.oblig()
            for k, inst, st, tr, ex in rs:
                if k == 'lost':
                    ctx.report('leak:%s:%s' % (f.clean, what), i.loc,
                               '%s: what %s allocates is neither released nor kept when the function returns at %s' % (
                                   f.clean, what if what != 'new' else 'this', inst.loc))
                    break
    ctx.need('allocations followed', n, 40)
    for f in o.fns:
        for fr, use in o.after_free(f):
            ctx.report('use:%s' % f.clean, use.loc, '%s: the pointer released at %s is used again' % (f.clean, fr.loc))
    ctx.counts['releases followed'] = getattr(o, 'frees', 0)
    ctx.oblig(n=getattr(o, 'frees', 0))
    owned, elems, manual = table(p)
    ctx.need('owned members', len(owned), 40)
    fill = fills(o)
    fs = own.Fields(o, set(owned), fill, INV)
    for n, ks in fill.items():
        fs.clob[n] = set(fs.clob.get(n) or ()) | ks
    donly = dtor_only(p, o)
    flows = {}
    for f in o.fns:
        fl = flows[f.name] = own.Flow(fs, f)
        for w, k, i in fl.bad:
            m = last(k)
            if w == 'overwrite':
                if raw(fl, f, k, i, manual, owned):
                    continue
                ctx.report('overwrite:%s:%s' % (f.clean, m), i.loc,
                           '%s: %s is overwritten while it may still hold something that was not released' % (
                               f.clean, m))
            else:
                ctx.report('double:%s:%s' % (f.clean, m), i.loc, '%s: %s is released twice' % (f.clean, m))
        if own.is_dtor(f) or f.name in donly:
            continue
        for i, st in fl.rets:
            for k, v in st.items():
                if own.F in v and own.root_of(k)[0] == 'arg' and not own.any_phi(k) and not own.hidden(k):
                    ctx.report('dangling:%s:%s' % (f.clean, last(k)), i.loc,
                               '%s: %s still points to what was released when the function returns' % (
                                   f.clean, last(k)))
    slots(ctx, p, o, fs, elems)
    lists(ctx, p, o)
    ctx.counts['member stores'] = fs.stores
    ctx.oblig(n=fs.stores)
    dtors(ctx, p, o, fs, flows, owned, elems, manual)
    for u in dict.fromkeys(o.undec):
        ctx.undecided([u])
    ctx.assume('a member of the table is only released through a pointer loaded from it')


def last(k):
    while k[0] not in ('.', 'arg', 'loc', 'phi', 'call'):
        k = k[1]
    return k[2] if k[0] in ('.', 'arg') else str(k)


def fills(o):
    """functions that fill a fresh object: their stores count as stores of the caller"""
    return {f.name: {('.', ('arg', 0, 'this'), m) for m in FILLS[f.clean].split()} for f in o.fns if f.clean in FILLS}


def raw(fl, f, k, i, manual, owned):
    """initialisation or bitwise move of an object without destructor"""
    m = last(k)
    cs = {c for c, n in owned if n == m and c in manual}
    T = ir.terms(f)
    if i.op != 'store' or f.cls not in cs:
        return False
    v = i.o[0]
    if v[0] in ('n', 'z'):
        return f.bname in ('Init',) or not f.access == 'public'
    t = ir.strip_casts(T.term(v))
    return t[0] == 'ld' and t[1][0] == '.' and t[1][2] == m and t[1] != k


def dtor_only(p, o):
    callers = {}
    for f in o.fns:
        for c in f.calls():
            for t in p.targets(c):
                callers.setdefault(t.name, set()).add(f)
    out = set()
    ch = True
    while ch:
        ch = False
        for f in o.fns:
            if f.name in out or own.is_dtor(f):
                continue
            cs = callers.get(f.name)
            if cs and all(own.is_dtor(g) or g.name in out for g in cs):
                out.add(f.name)
                ch = True
    return out


def dtors(ctx, p, o, fs, flows, owned, elems, manual):
    # functions reachable from destructors
    reach = set()
    work = [f for f in o.fns if own.is_dtor(f)]
    while work:
        f = work.pop()
        if f.name in reach:
            continue
        reach.add(f.name)
        for c in f.calls():
            work += [t for t in p.targets(c) if t.repo and not t.decl and t.name not in reach]
    for (c, m), el in sorted(owned.items()):
        ctx.oblig()
        cand = [f for f in o.fns if f.cls == c and f.name in reach]
        k = ('.', ('arg', 0, 'this'), m)
        if c not in manual:
            cand = [f for f in cand if own.is_dtor(f)]
        good = None
        for f in cand:
            fl = flows[f.name]
            if not fl.rets:
                continue
            if k not in fl.released:
                continue
            if all(own.L not in fl.get(st, k) for i, st in fl.rets):
                good = f
                if own.is_dtor(f) or c in manual:
                    break
        if c not in manual:
            # every destructor variant has to do it
            bad = [f for f in cand if not f.name.endswith('D0Ev') and not calls_dtor(p, f, c) and (
                k not in flows[f.name].released or
                any(own.L in flows[f.name].get(st, k) for i, st in flows[f.name].rets))]
            if cand and not bad:
                continue
            where = '%s:%s' % (bad[0].file, bad[0].line) if bad else '-'
            ctx.report('dtor:%s:%s' % (c, m), where, 'the destructor of %s does not release %s%s' % (
                c, m, ' on every path' if bad and k in flows[bad[0].name].released else ''))
        elif good is None:
            ctx.report('dtor:%s:%s' % (c, m), '-', 'no function called from a destructor releases %s of %s on every path' % (
                m, c))
    for c, m in sorted(elems):
        ctx.oblig()
        if not any(frees_elem(p, f, c, m) for f in o.fns if f.name in reach and f.cls == c):
            ctx.report('elems:%s:%s' % (c, m), '-', 'the elements of %s of %s are not released by the destructor' % (m, c))


def slot(p, f, a, elems):
    """(class, member) when the address is an element of an owned array"""
    T = ir.terms(f)
    for b in own.origins(f, a):
        if b[0] == 'i' and f.inst(b).op == 'load':
            mm = T.member(f.inst(b).o[0])
            if mm[1] and mm[2]:
                n = mm[1][-1]
                if (mm[2], n) in elems:
                    return mm[2], n
                if n.rstrip('_').endswith(('end', 'End')):
                    for c, m in elems:
                        if c == mm[2] and n.startswith(m.rstrip('_')):
                            return c, m
    return None


def slots(ctx, p, o, fs, elems):
    """elements of owned arrays"""
    n = 0
    for f in o.fns:
        T = ir.terms(f)
        # (1) a new object put into a slot stays there only if the array's bookkeeping is advanced
        for i, tok, given, what, rs in o.results[f.name]:
            for k, inst, st, tr, ex in rs:
                if k == 'given' and inst.op == 'store':
                    cm = slot(p, f, inst.o[1], elems)
                    if cm:
                        n += 1
                        ctx.oblig()
                        kept_or_freed(ctx, p, o, f, i, inst, inst.o[1], st, tok, cm)
        for i in f.calls():
            for t in p.targets(i):
                for a, x in enumerate(i.o):
                    if (t.name, a) in o.freshout and t.ptypes and x[0] == 'i':
                        cm = slot(p, f, x, elems)
                        if cm is None:
                            continue
                        for iv in o.freshout[(t.name, a)]:
                            n += 1
                            ctx.oblig()
                            kept_or_freed(ctx, p, o, f, i, i, x, {'env': {}, 'mem': {}, 'alias': {}}, ('tok', 1), cm, iv)
        # (2) an element is not replaced by null, nor passed over, unless it was released
        for s in f.all():
            if s.op == 'store' and s.o[0][0] in ('n', 'z') and s.o[1][0] == 'i':
                cm = slot(p, f, s.o[1], elems)
                if cm:
                    n += 1
                    ctx.oblig()
                    if not released_before(p, f, s):
                        ctx.report('slot:%s:%s' % (f.clean, cm[1]), s.loc,
                                   '%s: an element of %s is replaced by null on a path that did not release it' % (
                                       f.clean, cm[1]))
        n += element_frees(ctx, p, o, fs, f, elems)
    ctx.counts['array elements'] = n


def kept_or_freed(ctx, p, o, f, alloc, st_inst, addr, st, tok, cm, given=None):
    import flow
    ex = flow.Explorer(f)
    ex.LIMIT = 20000
    ex.bfs = True
    c, m = cm
    T = ir.terms(f)

    def book(i):
        if i.op == 'store' and i is not st_inst:
            mm = T.member(i.o[1])
            return bool(mm[1]) and mm[2] == c and mm[1][-1] != m and not mm[4]
        return False
    for i in f.all():
        if book(i) and f.inst_dominates(i, st_inst) and (f.inst_dominates(alloc, i) or f.inst_dominates(i, alloc) and
                                                         i.bb == alloc.bb):
            return

    def stop(i, s, ex):
        if book(i):
            return True
        fa = own.freed_arg(p, i)
        if fa is not None:
            if o.derived(ex, fa, s, tok):
                return True
            for x in own.origins(f, fa):
                if x[0] == 'i' and f.inst(x).op == 'load' and f.inst(x).o[0] == addr:
                    return True
        if i.op == 'store' and i is not st_inst and i.o[1] == addr:
            return False
        if i.op in ('call', 'invoke'):
            # handed to something that releases or keeps it
            for n_, a in enumerate(i.o):
                if o.derived(ex, a, s, tok) and o.takes(i, n_) is True:
                    return True
            # bookkeeping done by a member function
            if i is not st_inst and any(t.repo and t.cls == c and not t.decl and writes(p, t, c, m) for t in p.targets(i)):
                return True
        return False

    def ini(s):
        s['env'].update(st['env'])
        s['mem'].update(st['mem'])
        s['alias'].update(st['alias'])
    loads = [i for i in f.all() if i.op == 'load' and i.o[0] == addr]
    ex.edgeok = lambda x, y: not nulledge(f, x, y, loads)
    try:
        for kind, r, s2, tr in ex.run(st_inst, given, init=ini, stop=stop):
            if kind == 'ret':
                ctx.report('slot:%s:%s' % (f.clean, m), alloc.loc,
                           '%s: the object put into %s is neither counted nor released when the function returns at %s' % (
                               f.clean, m, r.loc))
                return
    except flow.TooMany:
        ctx.undecided(['%s: %s, too many paths' % (f.clean, m)])


def writes(p, t, c, m):
    T = ir.terms(t)
    for i in t.all():
        if i.op == 'store':
            mm = T.member(i.o[1])
            if mm[1] and mm[2] == c and mm[1][-1] != m:
                return True
    return False


def released_before(p, f, s):
    """on every path to the store a value loaded from the same address was released since that load, or the slot was
    found to be null or is being initialised"""
    addr = s.o[1]
    T = ir.terms(f)
    ta = T.addr(addr)
    loads = [i for i in f.all() if i.op == 'load' and (i.o[0] == addr or T.addr(i.o[0]) == ta)]
    if not loads:
        return True     # initialisation of new slots
    frees = []
    moved = False
    for i in f.all():
        a = own.freed_arg(p, i)
        if a is not None and any(('i', l.id) in own.origins(f, a) for l in loads):
            frees.append(i)
        if i.op == 'store' and i.o[0][0] == 'i' and any(('i', l.id) in own.origins(f, i.o[0]) for l in loads):
            moved = True
        if i.op in ('ret',) and i.o and i.o[0][0] == 'i' and any(('i', l.id) in own.origins(f, i.o[0]) for l in loads):
            moved = True
    if moved:
        return True
    # walk backwards from the store: release, a null test of the value, or the definition of the address ends the path
    bad = set()
    d = f.inst(addr) if addr[0] == 'i' else None
    work = [(s.bb, s.idx, False)]
    seen = set()
    fr = {i.id for i in frees}
    ld = {l.id for l in loads}
    while work:
        b, idx, used = work.pop()
        hit = False
        for i in reversed(f.blocks[b][:idx]):
            if i.id in fr:
                hit = True
                break
            if i is d or i.op == 'store' and i.o[1] == addr:
                if used:
                    return False
                hit = True
                break
            if i.id in ld:
                used = True
        if hit:
            continue
        for pb in f.preds().get(b, ()):
            t = f.blocks[pb][-1]
            if t.op == 'br' and t.o and t.succ[0] != t.succ[1] and nulltest(f, t, b, loads):
                continue
            if (pb, used) not in seen:
                seen.add((pb, used))
                work.append((pb, len(f.blocks[pb]), used))
        if b == 0 and used:
            return False
    return True


def nulltest(f, t, b, loads):
    v = t.o[0]
    if v[0] != 'i':
        return False
    i = f.inst(v)
    if i.op != 'icmp' or i.pred not in ('eq', 'ne'):
        return False
    for x, y in ((i.o[0], i.o[1]), (i.o[1], i.o[0])):
        if y[0] in ('n', 'z') and x[0] == 'i' and any(own.base_of(f, x) == ('i', l.id) for l in loads):
            return (i.pred == 'eq') == (b == t.succ[0])
    return False


def element_frees(ctx, p, o, flds, f, elems):
    """an element that is released at several places after its use is released on every path from there"""
    by = {}
    for i in f.calls():
        a = own.freed_arg(p, i)
        if a is None:
            continue
        for x in own.origins(f, a):
            if x[0] == 'i' and f.inst(x).op == 'load' and slot(p, f, f.inst(x).o[0], elems):
                by.setdefault(ir.terms(f).addr(f.inst(x).o[0]), []).append((i, f.inst(x)))
    n = 0
    for t, fs in by.items():
        if len(fs) < 2:
            continue
        n += 1
        ctx.oblig()
        # nearest common dominator, above which nothing is owed
        dom = None
        for b in range(len(f.blocks)):
            if all(f.dominates(b, i.bb) for i, l in fs) and (dom is None or f.dominates(dom, b)):
                dom = b
        # ... or the first call it was passed to
        lt = {l.id for i, l in fs}
        for u in sorted((u for u in f.calls() if any(own.base_of(f, x) in {('i', y) for y in lt} for x in u.o) or any(
                x[0] == 'i' and f.inst(x).op == 'load' and ir.terms(f).addr(f.inst(x).o[0]) == t for x in u.o)),
                key=lambda u: f.rpo().index(u.bb) if u.bb in f.rpo() else 1 << 30):
            if all(f.dominates(u.bb, i.bb) for i, l in fs):
                dom = u.bb
                break
        rel = {}
        for i, l in fs:
            rel.setdefault(i.bb, i)
        # helpers that may release it
        T = ir.terms(f)
        for u in f.calls():
            if own.freed_arg(p, u) is not None or u.bb in rel:
                continue
            for a, x in enumerate(u.o):
                if x[0] != 'i':
                    continue
                if slot(p, f, x, elems) and T.addr(x) == t and any(
                        k[0] == 'arg' and k[1] == a for g in p.targets(u) for k in flds.freesv.get(g.name) or ()):
                    rel.setdefault(u.bb, u)
                if x in {('i', y) for y in lt} and o.takes(u, a):
                    rel.setdefault(u.bb, u)
        if dom in rel:
            continue
        import flow
        ex = flow.Explorer(f)
        ex.bfs = True
        loads = [l for i, l in fs]
        bad = []
        ex.edgeok = lambda x, y: not nulledge(f, x, y, loads)

        def stop(i, st, ex):
            if i.bb in rel:
                return True
            if i.bb != dom and f.dominates(i.bb, dom):
                bad.append(i)
                return True
            return False
        try:
            for kind, r, st, tr in ex.run(f.blocks[dom][-2] if len(f.blocks[dom]) > 1 else f.blocks[dom][-1], None, stop=stop):
                if kind == 'ret' or bad:
                    bad[:] = []
                    m = slot(p, f, fs[0][1].o[0], elems)
                    ctx.report('element:%s:%s' % (f.clean, m[1]), fs[0][0].loc,
                               '%s: an element of %s is released on some paths and not on the one reaching %s' % (
                                   f.clean, m[1], r.loc))
                    break
        except flow.TooMany:
            ctx.undecided(['%s: element releases, too many paths' % f.clean])
    return n


def nulledge(f, a, b, loads):
    t = f.blocks[a][-1]
    return t.op == 'br' and bool(t.o) and t.succ[0] != t.succ[1] and nulltest(f, t, b, loads)


def is_frame(p, f, v):
    i = f.inst(v)
    if i.op == 'load':
        b = own.base_of(f, i.o[0])
        if b[0] == 'i' and f.inst(b).op == 'alloca' and any(
                s.op == 'store' and s.o[1] == b and any(x[0] == 'i' and own.is_alloc(f.inst(x)) for x in own.origins(f, s.o[0]))
                for s in f.all()):
            return False        # made by this function
    return any('mkvmuxer::Frame::~Frame' in p.callee_name(c) and c.o and v in own.origins(f, c.o[0]) for c in f.calls())


def lists(ctx, p, o):
    """frames held back in a cluster's lists: what is taken off a list is released by the same function"""
    n = 0
    for f in o.fns:
        if not f.file.startswith('mkvmuxer/'):
            continue
        rem = None
        for i in f.calls():
            nm = p.callee_name(i)
            if 'list<mkvmuxer::Frame' in nm and any(nm.split('(')[0].endswith(x) for x in ('::pop_front', '::pop_back', '::erase',
                                                                                           '::clear')):
                rem = i
        if rem is None:
            continue
        n += 1
        ctx.oblig()
        ok = False
        for i in f.calls():
            a = own.freed_arg(p, i)
            if a is not None and any(x[0] == 'i' and not own.is_alloc(f.inst(x)) and is_frame(p, f, x) for x in own.origins(f, a)):
                ok = True
        if not ok:
            ctx.report('list:%s' % f.clean, rem.loc, '%s: frames are taken off a list without being released' % f.clean)
    ctx.need('list removals', n, 1)


def calls_dtor(p, f, c):
    """a destructor variant that only forwards to another one of the same class"""
    return any(t.repo and own.is_dtor(t) and t.cls == c and t.name != f.name for i in f.calls() for t in p.targets(i))


def frees_elem(p, f, c, m):
    T = ir.terms(f)
    for i in f.calls():
        a = own.freed_arg(p, i)
        if a is None:
            continue
        for o in own.origins(f, a):
            if o[0] == 'i' and f.inst(o).op == 'load':
                for b in own.origins(f, f.inst(o).o[0]):
                    if b[0] == 'i' and f.inst(b).op == 'load':
                        mm = T.member(f.inst(b).o[0])
                        if mm[1] and mm[2] == c and (mm[1][-1] == m or mm[1][-1].rstrip('_').endswith('end')):
                            return True
    return False
