"""C12: the muxer refuses requests it cannot write correctly."""
import re

import bounds
import guards
import ir

Z = bounds.Z
N = 'mkvmuxer::'
U64 = (1 << 64) - 1
FMAX = 3.4028234663852886e38


def ge1(s):
    return (s, 1, None)


def eq(s, v):
    return (s, v, v)


def one_of(s, vs):
    return ('in', s, vs)


def absent_or(s, c):
    return [[eq(s, U64)], [c]]


# on every way on which the function reports success, one of the alternatives (each a list of conditions) was shown
SUCC = [
    ('Frame::IsValid', 'true', 'an empty frame', [[ge1('this.length_')]]),
    ('Frame::IsValid', 'true', 'a frame without a buffer', [[ge1('this.frame_')]]),
    ('Frame::IsValid', 'true', 'a track number outside 1 to 126', [[('this.track_number_', 1, 126)]]),
    ('Frame::IsValid', 'true', 'additional data without its length, or a length without data',
     [[('same', 'this.additional_', 'this.additional_length_')], [eq('this.additional_', 0), eq('this.additional_length_', 0)], [ge1('this.additional_'), ge1('this.additional_length_')]]),
    ('Frame::IsValid', 'true', 'a block group of a frame that is neither a key frame nor refers to another',
     [[ge1('call:Frame::CanBeSimpleBlock')], [ge1('this.is_key_')], [ge1('this.reference_block_timestamp_set_')],
      [eq('this.additional_', 0), eq('this.discard_padding_', 0), eq('this.duration_', 0)]]),
    ('Frame::CanBeSimpleBlock', 'true', 'a simple block for a frame with additional data', [[eq('this.additional_', 0)]]),
    ('Frame::CanBeSimpleBlock', 'true', 'a simple block for a frame with discard padding', [[eq('this.discard_padding_', 0)]]),
    ('Frame::CanBeSimpleBlock', 'true', 'a simple block for a frame with a duration', [[eq('this.duration_', 0)]]),
    ('Frame::Init', 'true', 'a missing frame buffer', [[ge1('a1')]]),
    ('Frame::AddAdditionalData', 'true', 'a missing buffer of additional data', [[ge1('a1')]]),
    ('CuePoint::Write', 'true', 'a cue point without a track', [[ge1('this.track_')]]),
    ('CuePoint::Write', 'true', 'a cue point without a cluster position', [[ge1('this.cluster_pos_')]]),
    ('Cues::AddCue', 'true', 'a missing cue point', [[ge1('a1')]]),
    ('Track::Write', 'true', 'a track without a type', [[ge1('this.type_')]]),
    ('Track::Write', 'true', 'a track without a codec', [[ge1('this.codec_id_')]]),
    ('Track::SetCodecPrivate', 'true', 'missing codec private data', [[ge1('a1')]]),
    ('Track::SetCodecPrivate', 'true', 'empty codec private data', [[ge1('a2')]]),
    ('ContentEncoding::SetEncryptionID', 'true', 'a missing key identifier', [[ge1('a1')]]),
    ('ContentEncoding::SetEncryptionID', 'true', 'an empty key identifier', [[ge1('a2')]]),
    ('Projection::SetProjectionPrivate', 'true', 'missing projection data', [[ge1('a1')]]),
    ('Projection::SetProjectionPrivate', 'true', 'empty projection data', [[ge1('a2')]]),
    ('PrimaryChromaticity::Valid', 'true', 'a chromaticity outside 0 to 1', [[('this.x_', 0.0, 1.0), ('this.y_', 0.0, 1.0)]]),
    ('MasteringMetadata::Valid', 'true', 'a minimum luminance outside its range',
     [[eq('this.luminance_min_', FMAX)], [('this.luminance_min_', 0.0, 999.99999)]]),
    ('MasteringMetadata::Valid', 'true', 'a maximum luminance outside its range',
     [[eq('this.luminance_max_', FMAX)], [('this.luminance_max_', 0.0, 9999.99999)]]),
    ('MasteringMetadata::Valid', 'true', 'a minimum luminance above the maximum',
     [[eq('this.luminance_min_', FMAX), eq('this.luminance_max_', FMAX)], [('le', 'this.luminance_min_', 'this.luminance_max_')]]),
    ('VideoTrack::SetStereoMode', 'true', 'an unsupported stereo mode', [[one_of('a1', (0, 1, 2, 3, 11))]]),
    ('VideoTrack::SetAlphaMode', 'true', 'an unsupported alpha mode', [[one_of('a1', (0, 1))]]),
    ('IsMatrixCoefficientsValueValid', 'true', 'matrix coefficients outside the table', [[one_of('a0', tuple(range(11)))]]),
    ('IsChromaSitingHorzValueValid', 'true', 'a chroma siting outside the table', [[one_of('a0', (0, 1, 2))]]),
    ('IsChromaSitingVertValueValid', 'true', 'a chroma siting outside the table', [[one_of('a0', (0, 1, 2))]]),
    ('IsColourRangeValueValid', 'true', 'a colour range outside the table', [[one_of('a0', (0, 1, 2, 3))]]),
    ('IsTransferCharacteristicsValueValid', 'true', 'transfer characteristics outside the table', [[one_of('a0', tuple(range(1, 19)))]]),
    ('IsPrimariesValueValid', 'true', 'primaries outside the table', [[one_of('a0', tuple(range(11)) + (22,))]]),
    ('Tracks::AddTrack', 'true', 'a track number outside 0 to 126', [[('a2', 0, 126)]]),
    ('Tracks::AddTrack', 'true', 'a track after the tracks were written', [[eq('this.wrote_tracks_', 0)]]),
    ('Tracks::AddTrack', 'true', 'more than 126 tracks', [[('this.track_entries_size_', None, 125)]]),
    ('Tracks::TrackIsAudio', 'true', 'a track that does not exist', [[ge1('call:Tracks::GetTrackByNumber')]]),
    ('Tracks::TrackIsVideo', 'true', 'a track that does not exist', [[ge1('call:Tracks::GetTrackByNumber')]]),
    ('Cluster::Init', 'true', 'a missing writer', [[ge1('a1')]]),
    ('Segment::Init', 'true', 'a missing writer', [[ge1('a1')]]),
    ('Cluster::AddFrameWithAdditional', 'true', 'missing additional data', [[ge1('a3')]]),
    ('Cluster::PreWriteBlock', 'true', 'a block in a finished cluster', [[eq('this.finalized_', 0)]]),
    ('Cluster::Finalize', 'true', 'finishing a cluster twice', [[eq('this.finalized_', 0)], [ge1('call:Cluster::Finalize')]]),
    ('Cluster::Finalize', 'true', 'finishing a cluster without a writer', [[ge1('this.writer_')], [ge1('call:Cluster::Finalize')]]),
    ('Cluster::WriteClusterHeader', 'true', 'a header of a finished cluster', [[eq('this.finalized_', 0)]]),
    ('Cluster::DoWriteFrame', 'true', 'a frame that was not written', [[ge1('call:WriteFrame')]]),
    ('SeekHead::SetSeekEntry', 'true', 'a seek entry that does not exist', [[('a1', 0, 4)]]),
    ('Segment::AddCuePoint', 'true', 'a cue point before the first cluster', [[ge1('this.cluster_list_size_')]]),
    ('Segment::CuesTrack', 'true', 'cues for a track that does not exist', [[ge1('call:Segment::GetTrackByNumber')], [ge1('call:Tracks::GetTrackByNumber')]]),
    ('Segment::AddTrack', 'true', 'a track that could not be added', [[ge1('call:Tracks::AddTrack')]]),
    ('Segment::AddVideoTrack', 'true', 'a track that could not be added', [[ge1('call:Tracks::AddTrack')]]),
    ('Segment::AddAudioTrack', 'true', 'a track that could not be added', [[ge1('call:Tracks::AddTrack')]]),
    ('Segment::AddFrame', 'true', 'a missing frame buffer', [[ge1('a1')]]),
    ('Segment::AddFrameWithAdditional', 'true', 'a missing frame buffer', [[ge1('a1')]]),
    ('Segment::AddFrameWithAdditional', 'true', 'missing additional data', [[ge1('a3')]]),
    ('Segment::AddFrameWithDiscardPadding', 'true', 'a missing frame buffer', [[ge1('a1')]]),
    ('Segment::AddMetadata', 'true', 'a missing frame buffer', [[ge1('a1')]]),
    ('Segment::SetChunking', 'true', 'chunking after the first chunk', [[('this.chunk_count_', None, 0)]]),
    ('Segment::SetChunking', 'true', 'chunking without a file name', [[eq('a1', 0)], [ge1('a2')]]),
    ('SerializeInt', 'zero', 'a size outside 1 to 8', [[('a2', 1, 8)]]),
    ('SerializeInt', 'zero', 'a missing writer', [[ge1('a0')]]),
    ('SerializeFloat', 'zero', 'a missing writer', [[ge1('a0')]]),
    ('WriteUIntSize', 'zero', 'a size outside 0 to 8', [[('a2', 0, 8)]]),
    ('WriteID', 'zero', 'a missing writer', [[ge1('a0')]]),
]
SUCC += [('Colour::Valid', 'true', 'an invalid %s' % what, absent_or('this.%s_' % f, ge1('call:%s@this.%s_' % (g, f)))) for what, f, g in (
    ('matrix', 'matrix_coefficients', 'IsMatrixCoefficientsValueValid'), ('chroma siting', 'chroma_siting_horz', 'IsChromaSitingHorzValueValid'),
    ('chroma siting', 'chroma_siting_vert', 'IsChromaSitingVertValueValid'), ('range', 'range', 'IsColourRangeValueValid'),
    ('transfer', 'transfer_characteristics', 'IsTransferCharacteristicsValueValid'), ('set of primaries', 'primaries', 'IsPrimariesValueValid'))]
SUCC += [('Colour::Valid', 'true', 'invalid mastering metadata',
          [[eq('this.mastering_metadata_', 0)], [ge1('call:MasteringMetadata::Valid@this.mastering_metadata_')]])]
SUCC += [('MasteringMetadata::Valid', 'true', 'an invalid chromaticity',
          [[eq('this.%s_' % c, 0)], [ge1('call:PrimaryChromaticity::Valid@this.%s_' % c)]]) for c in ('r', 'g', 'b', 'white_point')]
FRAME = [('a missing frame', [[ge1('a1')]]), ('an invalid frame', [[ge1('call:Frame::IsValid')]])]
GENERIC = [
    ('a missing frame', [[ge1('a1')]]),
    ('headers that could not be written', [[ge1('call:Segment::CheckHeaderInfo')]]),
    ('a track number outside 1 to 126', [[('a1.track_number_', 1, 126)]]),
    ('a track that does not exist', [[ge1('call:Tracks::GetTrackByNumber')], [ge1('call:Segment::GetTrackByNumber')]]),
    ('a frame older than the last one', [[('le', 'this.last_timestamp_', 'a1.timestamp_')]]),
]
# on every way to one of the calls, one of the alternatives was shown
BEFORE = [('Cluster::DoWriteFrame', ('WriteFrame',), w, a) for w, a in FRAME + [('a cluster that cannot take blocks', [[ge1('call:Cluster::PreWriteBlock')]])]]
BEFORE += [('Cluster::QueueOrWriteFrame', ('Frame::CopyFrom',), w, a) for w, a in FRAME]
BEFORE += [('Segment::AddGenericFrame', ('Segment::QueueFrame', 'Segment::DoNewClusterProcessing', 'Cluster::AddFrame'), w, a) for w, a in GENERIC]
BEFORE += [('WriteFrame', ('WriteSimpleBlock', 'WriteBlock'), w, a) for w, a in [
    ('a missing writer', [[ge1('a0')]]), ('a missing frame', [[ge1('a1')]]), ('an invalid frame', [[ge1('call:Frame::IsValid')]]),
    ('a missing cluster', [[ge1('a2')]]), ('a time scale of zero', [[ge1('call:Cluster::timecode_scale')], [ge1('a2.timecode_scale_')]])]]
BEFORE += [('Colour::Write', ('WriteEbmlMasterElement', 'WriteEbmlElement'), 'invalid colour values', [[ge1('call:Colour::Valid')]])]
BEFORE += [('PrimaryChromaticity::Write', ('WriteEbmlElement',), 'invalid chromaticity', [[ge1('call:PrimaryChromaticity::Valid')]])]
# the argument of every call of the function is inside the limits
ARGS = [
    ('WriteSimpleBlock', 2, 0, 32767, 'a block time outside 0 to 32767'),
    ('WriteBlock', 2, 0, 32767, 'a block time outside 0 to 32767'),
]
# what the function returns, on the ways it does not report failure
RETS = [('Cluster::GetRelativeTimecode', 'nonneg', 0, 32767, 'a block time outside 0 to 32767')]
# what is stored into the member, wherever it is
STORES = [('SegmentInfo', 'timecode_scale_', 1, None, 'a time scale of zero')]


class Check:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.prog
        self.P = guards.Prover(self.p, guards.facts, self.post, 12000)

    def post(self, fp, call, how):
        return fp.flag(('i', call.id), how == 'true') if how in ('true', 'false') else []

    # ------------------------------------------------------------ what a condition talks about
    def matcher(self, fp, spec):
        """a function telling whether a node is (a version of) what the spec names"""
        f, p = fp.f, self.p
        if spec.startswith('call:'):
            name, _, at = spec[5:].partition('@')
            sub = self.matcher(fp, at) if at else None
            ids = set()
            for i in f.calls():
                if N + name == nm(p, i):
                    if sub is None or any(sub(fp.node(o)[0]) for o in i.o):
                        ids.add(('v', i.id))
                        ids.add(fp.node(('i', i.id))[0])
            return lambda n: n in ids
        k, _, fld = spec.partition('.')
        k = 0 if k == 'this' else int(k[1:])
        if not fld:
            a = fp.node(('a', k))[0]
            return lambda n: n == a

        def m(n):
            c = n[-1] if n[0] in ('entry', 'post', 'clob', 'cphi') else None
            if n[0] in ('entry', 'post', 'clob', 'cphi', 'v'):
                if c is None or not isinstance(c, tuple):
                    return False
                return len(c) > 1 and c[0] == ('a', k) and c[1] == (fld,)
            return False
        return m

    def cond(self, fp, c):
        if c[0] == 'in':
            m = self.matcher(fp, c[1])
            vals = set(c[2])

            def test(bb, fs):
                for t in fs:
                    if t[0] == 'ne' and t[1][0] == 'sw' and m(t[1][1][0]) and {v + 0 for v in t[1][2]} <= vals:
                        return True
                nodes = self.nodes(fp, bb, fs, m)
                for n in nodes:
                    lo, hi, out = interval(fp, n, bb, fs)
                    if hi - lo <= 64 and all(v in vals or v in out for v in range(int(lo), int(hi) + 1)):
                        return True
                return False
            return test
        if c[0] == 'same':
            m1, m2 = self.matcher(fp, c[1]), self.matcher(fp, c[2])

            def test(bb, fs):
                for t in list(fs) + list(fp.facts(bb)):
                    if t[0] == 'ne' and t[1][0] == 'same':
                        for x, y in (t[1][1:3], t[1][2:0:-1]):
                            if any(nonzero(u, m1) for u in x) and any(nonzero(u, m2) for u in y):
                                return True
                return False
            return test
        if c[0] == 'le':
            m1, m2 = self.matcher(fp, c[1]), self.matcher(fp, c[2])

            def test(bb, fs):
                return any(t[0] != 'ne' and m1(t[0]) and m2(t[1]) and t[2] <= 0 for t in list(fs) + list(fp.facts(bb)))
            return test
        m = self.matcher(fp, c[0])
        lo, hi = c[1], c[2]

        def test(bb, fs):
            for n in self.nodes(fp, bb, fs, m):
                a, z, out = interval(fp, n, bb, fs)
                if lo == hi and lo == U64 and z == -1:
                    return True
                if lo == hi and lo == FMAX and a >= FMAX * 0.999999:
                    return True
                if (lo is None or a >= lo) and (hi is None or z <= hi):
                    return True
                if lo == 1 and hi is None and 0 in out and n[0] == 'v' and self.unsigned(fp, n[1]):
                    return True
            return False
        return test

    def unsigned(self, fp, k):
        ts = self.p.targets(fp.f.insts[k])
        return bool(ts) and all(guards.unsigned(g.ret) for g in ts)

    def nodes(self, fp, bb, fs, m):
        out = []
        for t in list(fs) + list(fp.facts(bb)):
            for x in t[:3]:
                if isinstance(x, tuple) and x not in out and x != Z and x and x[0] not in ('sw', 'same') and m(x):
                    out.append(x)
        return out

    def shown(self, fp, alts):
        tests = [[self.cond(fp, c) for c in a] for a in alts]
        return lambda fp_, bb, fs: any(all(t(bb, fs) for t in a) for a in tests) or impossible(fp, bb, fs)

    def fns(self, name):
        return [f for f in self.p.fn.values() if f.clean.replace('(anonymous namespace)::', '') == N + name and not f.decl and f.file.startswith('mkvmuxer/')]


def nonzero(t, m):
    return t[0] == 'ne' and (m(t[1]) and t[2] == Z or m(t[2]) and t[1] == Z) and t[3] == 0 or t[0] == Z and m(t[1]) and t[2] == -1


def interval(fp, n, b, facts):
    a, z, out = -guards.INF, guards.INF, set()
    for t in list(fp.facts(b)) + list(facts) + fp.intrinsic(n):
        if t[0] == 'ne':
            if t[1] == n and t[2] == Z:
                out.add(t[3])
            elif t[2] == n and t[1] == Z:
                out.add(-t[3])
        elif t[0] == n and t[1] == Z:
            z = min(z, t[2])
        elif t[0] == Z and t[1] == n:
            a = max(a, -t[2])
    while a in out:
        a += 1
    while z in out:
        z -= 1
    return a, z, out


def run(ctx):
    p = ctx.prog
    ctx.rule('On every way on which a function of the muxer reports success (or reaches the call that takes a frame, writes a block '
             'or writes an element), a test before it showed the request to be one the muxer can write correctly.')
    ctx.assume('integers do not wrap; a test of a member speaks about the value the member has later in the same call')
    ck = Check(ctx)
    n = 0
    for fn, kind, what, alts in SUCC:
        for f in ck.fns(fn):
            n += 1
            ctx.oblig(n=1)
            fp = ck.P.on(f)
            look(ctx, ck, f, fp, None, alts, kind, None, '%s may report success for %s' % (f.clean, what), '%s:%s' % (f.clean, what))
    ctx.need('success obligations', n, 60)
    n = 0
    for fn, callees, what, alts in BEFORE:
        for f in ck.fns(fn):
            fp = ck.P.on(f)
            at = {i.id for i in f.calls() if nm(p, i) in [N + c for c in callees]}
            n += len(at)
            ctx.oblig(n=1)
            look(ctx, ck, f, fp, lambda i, at=at: i.id in at, alts, None, None, '%s goes on with %s' % (f.clean, what), '%s:before:%s' % (f.clean, what))
    ctx.need('guarded calls', n, 25)
    n = 0
    for callee, k, lo, hi, what in ARGS:
        for f in p.repo_fns(lambda f: f.file.startswith('mkvmuxer/') and not f.decl):
            for i in f.calls():
                if nm(p, i) == N + callee:
                    n += 1
                    ctx.oblig(n=1)
                    fp = ck.P.on(f)
                    if not guards.inside(fp, fp.node(i.o[k]), lo, hi, i.bb):
                        ctx.report('%s:%s:arg' % (f.clean, callee), i.loc, '%s hands %s to %s' % (f.clean, what, callee))
    ctx.need('block times handed over', n, 2)
    for fn, kind, lo, hi, what in RETS:
        for f in ck.fns(fn):
            fp = ck.P.on(f)
            ctx.oblig(n=1)
            for w in guards.ways(fp, kind):
                v = w[0].o[0]
                for b, m in w[2]:
                    pass
                v = along(fp, v, w[2])
                if not guards.inside(fp, fp.node(v), lo, hi, w[1], w[3]):
                    ctx.report('%s:ret' % f.clean, f.blocks[w[1]][-1].loc, '%s may return %s' % (f.clean, what))
                    break
    n = 0
    for cls, fld, lo, hi, what in STORES:
        for f in p.fn.values():
            if f.decl or not f.repo:
                continue
            for i in f.all():
                if i.op == 'store' and ir.terms(f).member(i.o[1])[1:3] == ([fld], N + cls):
                    n += 1
                    ctx.oblig(n=1)
                    fp = ck.P.on(f)
                    v = fp.node(i.o[0])
                    if not (guards.tested(fp, v, lo, hi, i.bb) or guards.inside(fp, v, lo, hi, i.bb)):
                        ctx.report('%s:%s:store' % (f.clean, fld), i.loc, '%s keeps %s' % (f.clean, what))
    ctx.need('values kept', n, 2)
    tracknumbers(ctx, ck)


def impossible(fp, bb, fs):
    for k in range(len(fp.f.ptypes)):
        a, z, _ = interval(fp, ('a', k), bb, fs)
        if a > z:
            return True
    return False


def nm(p, i):
    return (p.callee_name(i) or '').replace('(anonymous namespace)::', '')


def along(fp, v, chain):
    """the value that comes in along the merges of the way (innermost last)"""
    f = fp.f
    pend = list(chain)
    for _ in range(8):
        if v[0] != 'i' or f.inst(v).op != 'phi':
            return v
        i = f.inst(v)
        for pb, m in pend:
            if m == i.bb:
                x = [a for a, b in i.phi if b == pb]
                if x:
                    v = x[0]
                    break
        else:
            return v
    return v


def look(ctx, ck, f, fp, stop, alts, kind, call, msg, key):
    try:
        e = guards.escapes(fp, call, ck.shown(fp, alts), kind, stop=stop, limit=6000)
    except guards.Budget:
        ctx.undecided(['%s: too many ways' % key])
        return
    if e is not None:
        ctx.report(key, e.loc, msg)


def tracknumbers(ctx, ck):
    """the number a track gets is in 1 to 126, and was compared with the number of every track there is"""
    p = ctx.prog
    for f in ck.fns('Tracks::AddTrack'):
        fp = ck.P.on(f)
        ends = set()
        for i in f.all():
            if i.op != 'icmp' or i.pred not in ('eq', 'ne'):
                continue
            ts = [ir.show(fp.T.term(o)) for o in i.o]
            if any('number' in t and 'track_entries_' in t for t in ts):
                # the exit of the loop that makes the comparison
                for h in range(len(f.blocks)):
                    if not f.dominates(h, i.bb):
                        continue
                    t = f.blocks[h][-1]
                    if t.op == 'br' and len(set(f.succs(h))) == 2 and reaches(f, i.bb, h):
                        for s in f.succs(h):
                            for c in f.edge_conds(h, s):
                                if c[0] == 'c':
                                    for u in fp.cond_facts(c[1], c[2]):
                                        if u[0] != 'ne' and walks(fp, u):
                                            ends.add((u[0], u[1], u[2]))
        n = 0
        for i in f.all():
            num = None
            if i.op == 'store' and fp.cell(i.o[1]) and fp.cell(i.o[1])[1] == ('number_',) and fp.cell(i.o[1])[0] == ('a', 1):
                num = i.o[0]
            elif i.op in ('call', 'invoke') and nm(p, i) == N + 'Track::set_number':
                num = i.o[1]
            if num is None:
                continue
            n += 1
            ctx.oblig(n=2)
            if not all(guards.inside(fp, fp.node(x), 1, 126, b, ex) for x, b, ex in variants(fp, num, i.bb)):
                ctx.report('%s:range' % f.clean, i.loc, '%s may give a track a number outside 1 to 126' % f.clean)
            absent = ck.shown(fp, [[('call:Tracks::GetTrackByNumber', None, 0)]])
            shown = lambda fp_, bb, fs: any(t[:3] in ends for t in fs) or absent(fp, bb, fs)
            try:
                e = guards.escapes(fp, None, shown, None, stop=lambda j, i=i: j is i, limit=6000)
            except guards.Budget:
                ctx.undecided(['%s: too many ways' % f.clean])
                continue
            if e is not None:
                ctx.report('%s:unique' % f.clean, i.loc, '%s may give a track the number of another one' % f.clean)
        ctx.need('track numbers given', n, 1)


def walks(fp, u):
    """is that fact the end of a walk over all tracks?"""
    f = fp.f
    x = u[1] if u[1][0] == 'v' else u[0]
    if x[0] != 'v' or f.insts[x[1]].op != 'phi':
        return False
    first, step, seen = set(), set(), set()
    todo = [('i', x[1])]
    while todo:
        v = todo.pop()
        if v[0] == 'i' and f.inst(v).op == 'phi' and v not in seen:
            seen.add(v)
            todo += [y for y, pb in f.inst(v).phi]
        elif v not in seen:
            n, o = fp.node(v)
            (step if n == x else first).add((n, o))
    if len(first) != 1 or not step:
        return False
    first = list(first)
    size = lambda n: field(n, 'track_entries_size_')
    up = size(u[0]) and u[1] == x and u[2] <= 0 and first[0] == (Z, 0) and all(o == 1 for n, o in step)
    down = u[0] == x and u[1] == Z and u[2] <= 0 and size(first[0][0]) and first[0][1] == 0 and all(o == -1 for n, o in step)
    down0 = u[0] == x and u[1] == Z and u[2] == -1 and size(first[0][0]) and first[0][1] == -1 and all(o == -1 for n, o in step)
    return up or down or down0


def variants(fp, v, B, depth=0):
    f = fp.f
    if v[0] == 'i':
        i = f.inst(v)
        if i.op in ('zext', 'sext'):
            return variants(fp, i.o[0], B, depth)
        if i.op == 'phi' and depth < 2 and not guards.inside(fp, fp.node(v), 1, 126, B) and not any(f.dominates(i.bb, pb) for _, pb in i.phi):
            return [w for x, pb in i.phi for w in
                    [(y, b, e + fp.edge_facts(pb, i.bb)) for y, b, e in variants(fp, x, pb, depth + 1)]]
    return [(v, B, [])]


def field(n, name):
    return n[0] in ('entry', 'post', 'clob', 'cphi') and isinstance(n[-1], tuple) and len(n[-1]) > 1 and n[-1][1] == (name,)


def reaches(f, a, b):
    seen, st = set(), [a]
    while st:
        x = st.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        st += f.succs(x)
    return False
