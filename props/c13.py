"""C13: the file parser refuses values outside the limits of their element."""
import os
import re
import sys

import bounds
import guards
import ir

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec'))
import schema  # noqa: E402

Z = bounds.Z
N = 'mkvparser::'
POS = 5e-324
BIG = 9223372036854775807
FMAX = 3.4028234663852886e38
# element: lowest and highest value the parser may keep, and whether a test at the end of the function may show it
LIMITS = '''
EBMLVersion 1 - EBMLHeader.m_version
EBMLReadVersion 1 - EBMLHeader.m_readVersion
EBMLMaxIDLength 1 - EBMLHeader.m_maxIdLength
EBMLMaxSizeLength 1 - EBMLHeader.m_maxSizeLength
DocTypeVersion 1 - EBMLHeader.m_docTypeVersion
DocTypeReadVersion 1 - EBMLHeader.m_docTypeReadVersion
TimecodeScale 1 - SegmentInfo.m_timecodeScale
Duration 0 -
SeekID 1 - SeekHead::Entry.id
SeekPosition 0 - SeekHead::Entry.pos
CueTime 0 -
CueTrack 1 - CuePoint::TrackPosition.m_track
CueClusterPosition 0 - CuePoint::TrackPosition.m_pos
CueBlockNumber 0 - CuePoint::TrackPosition.m_block
ContentEncodingOrder 0 -
ContentEncodingScope 1 -
ContentEncodingType 0 -
ContentCompAlgo 0 -
ContentEncAlgo 5 5
ContentSigAlgo 0 -
ContentSigHashAlgo 0 -
AESSettingsCipherMode 1 1
TrackNumber 1 127
TrackType 1 254
DefaultDuration 0 -
FlagLacing 0 1
CodecDelay 0 -
SeekPreRoll 0 -
PixelWidth 1 -
PixelHeight 1 -
DisplayWidth 1 -
DisplayHeight 1 -
DisplayUnit 0 -
StereoMode 0 -
FrameRate + -
SamplingFrequency + -
Channels 1 -
BitDepth 1 -
MatrixCoefficients 0 -
BitsPerChannel 0 -
ChromaSubsamplingHorz 0 -
ChromaSubsamplingVert 0 -
CbSubsamplingHorz 0 -
CbSubsamplingVert 0 -
ChromaSitingHorz 0 -
ChromaSitingVert 0 -
Range 0 -
TransferCharacteristics 0 -
Primaries 0 -
MaxCLL 0 -
MaxFALL 0 -
LuminanceMax 0 9999.99
LuminanceMin 0 999.9999
ProjectionType 0 -
ProjectionPoseYaw f f
ProjectionPosePitch f f
ProjectionPoseRoll f f
ChapterTimeStart 0 -
ChapterTimeEnd 0 -
Timecode 0 -
BlockDuration 0 -
'''
# on success of the function, the field is inside the limits
SUCC = [
    ('EBMLHeader::Parse', 'const', 'EBMLHeader', 'm_docType', 1, None),
    ('EBMLHeader::Parse', 'const', 'EBMLHeader', 'm_docTypeVersion', 1, None),
    ('EBMLHeader::Parse', 'const', 'EBMLHeader', 'm_docTypeReadVersion', 1, None),
    ('EBMLHeader::Parse', 'const', 'EBMLHeader', 'm_version', 1, None),
    ('EBMLHeader::Parse', 'const', 'EBMLHeader', 'm_readVersion', 1, None),
    ('EBMLHeader::Parse', 'const', 'EBMLHeader', 'm_maxIdLength', 1, 4),
    ('EBMLHeader::Parse', 'const', 'EBMLHeader', 'm_maxSizeLength', 1, 8),
    ('SegmentInfo::Parse', 'zero', 'SegmentInfo', 'm_timecodeScale', 1, None),
    ('CuePoint::Load', 'true', 'CuePoint', 'm_timecode', 0, None),
    ('CuePoint::Load', 'true', 'CuePoint', 'm_track_positions_count', 1, None, ('m_timecode', 0)),
    ('CuePoint::TrackPosition::Parse', 'true', 'CuePoint::TrackPosition', 'm_track', 1, None),
    ('CuePoint::TrackPosition::Parse', 'true', 'CuePoint::TrackPosition', 'm_pos', 0, None),
    ('CuePoint::TrackPosition::Parse', 'true', 'CuePoint::TrackPosition', 'm_block', 0, None),
    ('SeekHead::ParseEntry', 'true', 'SeekHead::Entry', 'id', 1, None),
    ('SeekHead::ParseEntry', 'true', 'SeekHead::Entry', 'pos', 0, None),
    ('Block::Parse', 'zero', 'Block', 'm_track', 1, None),
    ('Block::Parse', 'zero', 'Block', 'm_timecode', -32768, 32767),
    ('Block::Parse', 'zero', 'Block', 'm_frame_count', 1, None),
    ('VideoTrack::Parse', 'zero', 'Track::Info', 'type', 1, 1),
    ('AudioTrack::Parse', 'zero', 'Track::Info', 'type', 2, 2),
    ('ReadID', 'nonneg', None, 'len', 1, 4),
    ('ReadUInt', 'nonneg', None, 'len', 1, None),
    ('GetUIntLength', 'zero', None, 'len', 1, None),
]
# before the call, the argument of the function was shown to be one of those
BEFORE = [
    ('UnserializeUInt', 'IMkvReader::Read', 2, ((1, 8),)),
    ('UnserializeUInt', 'IMkvReader::Read', 1, ((0, None),)),
    ('UnserializeInt', 'IMkvReader::Read', 2, ((1, 8),)),
    ('UnserializeInt', 'IMkvReader::Read', 1, ((0, None),)),
    ('UnserializeFloat', 'IMkvReader::Read', 2, ((4, 4), (8, 8))),
    ('UnserializeFloat', 'IMkvReader::Read', 1, ((0, None),)),
    ('UnserializeString', 'IMkvReader::Read', 2, ((0, BIG - 1),)),
    ('ReadUInt', 'IMkvReader::Read', 1, ((0, None),)),
    ('ReadID', 'IMkvReader::Read', 1, ((0, None),)),
]
# where the function stores into the member (or hands out an object), what holds then
STORES = [
    ('Cluster::Load', 'Cluster', 'm_timecode', 'value', 0, None),
    ('CuePoint::Load', 'CuePoint', 'm_timecode', 'value', 0, None),
    ('Block::Parse', 'Block::Frame', 'len', 'value', 1, None),
    ('Tracks::ParseTrackEntry', None, 'pResult', ('Track::Info', 'number'), 1, 127),
    ('Tracks::ParseTrackEntry', None, 'pResult', ('Track::Info', 'type'), 1, 254),
]
# values whose element is only known to the caller or later
BYFN = {('PrimaryChromaticity::Parse', 'UnserializeFloat'): (0.0, 1.0),
        ('Projection::Parse', 'UnserializeFloat'): (-FMAX, FMAX)}
READERS = {'UnserializeUInt': 'ret', 'UnserializeFloat': 3, 'UnserializeInt': 3, 'ReadID': 'ret'}


def limits():
    out = {}
    for l in LIMITS.split('\n'):
        w = l.split()
        if not w:
            continue
        lo = {'+': POS, 'f': -FMAX}.get(w[1])
        lo = float(w[1]) if lo is None else lo
        hi = None if w[2] == '-' else FMAX if w[2] == 'f' else float(w[2])
        lo = int(lo) if lo == int(lo) and w[1] not in '+f' else lo
        hi = int(hi) if hi is not None and hi == int(hi) and w[2] not in 'f' else hi
        out[w[0]] = (lo, hi, w[3] if len(w) > 3 else None)
    return out


def kind_of(f):
    r = f.ret
    if r == 'bool' or r.rstrip().endswith('*'):
        return 'true'
    return 'zero' if r != 'void' else 'any'


class Check:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.prog
        self.P = guards.Prover(self.p, guards.facts, self.post, 12000)
        t = self.p.types.get('libwebm::MkvId') or {'members': []}
        self.names = {}
        for m in t['members']:
            if m[0] == 'enum':
                self.names[int(m[2]) & 0xffffffff] = m[1].replace('kMkv', '', 1)

    def post(self, fp, call, how):
        return []

    def elements(self, fp, bb):
        """names of the elements whose payload is read in that block"""
        f = fp.f
        for c in f.dom_facts(bb):
            if c[0] == 'sw' and c[3]:
                out = sorted({self.names[int(k)] for k in c[2] if int(k) in self.names})
                if out:
                    return out
            elif c[0] == 'c' and any(t[0] != 'ne' and t[1] == Z and t[2] in self.names for t in fp.cond_facts(c[1], c[2])):
                break
        # the nearest test of an id
        fs = fp.facts(bb)
        up = {}
        for t in fs:
            if t[0] != 'ne' and t[1] == Z:
                up[t[0]] = t[2]
        for t in fs:
            if t[0] == Z and t[1] in up and up[t[1]] == -t[2] and up[t[1]] in self.names:
                return [self.names[up[t[1]]]]
        return []


def readers(p):
    for f in p.repo_fns(lambda f: f.file.startswith('mkvparser/') and not f.decl):
        for i in f.calls():
            nm = (p.callee_name(i) or '')
            if nm.startswith(N) and nm[len(N):] in READERS:
                yield f, i, nm[len(N):]


def run(ctx):
    p = ctx.prog
    ctx.rule('From every place where the file parser decodes the payload of an element, every way on shows the value to be '
             'inside the limits the format sets for that element, or makes the function report failure; on every way a '
             'parsing function reports success, the fields it fills lie inside their limits and mandatory ones are '
             'present; the decoding helpers refuse lengths outside the limits of their type before they read.')
    ctx.assume('integers do not wrap; the float decoder lets no NaN through (decided as an obligation of its own)')
    ck = Check(ctx)
    lim = limits()
    ncall = 0
    seen = set()
    for f, i, nm in readers(p):
        fp = ck.P.on(f)
        els = ck.elements(fp, i.bb)
        els = [e for e in els if e in lim]
        if nm in ('ReadID',) and 'SeekID' not in els:
            continue
        if READERS[nm] == 'ret':
            v = fp.node(('i', i.id))
        else:
            c = fp.cell(i.o[READERS[nm]])
            v = fp.version(c, i.bb, i.idx + 1) if c else None
        if nm == 'UnserializeUInt':
            lo, hi = 0, None
        else:
            lo, hi = None, None
        succ = []
        for e in els:
            a, b, s = lim[e]
            lo = a if lo is None else max(lo, a)
            hi = b if hi is None else hi if b is None else min(hi, b)
            if s:
                succ.append(s)
            seen.add(e)
        if not els:
            lo, hi = BYFN.get((f.clean[len(N):], nm), (lo, hi))
        if lo is None and hi is None:
            continue
        ncall += 1
        ctx.oblig(n=1)
        what = '/'.join(els) or nm
        if v is None:
            ctx.report('%s:%s' % (f.clean, what), i.loc, '%s: %s is decoded into a place this analysis cannot follow' % (f.clean, what))
            continue
        shown = lambda fp, bb, fs: guards.tested(fp, v, lo, hi, bb, fs)
        kind = kind_of(f)
        try:
            e = guards.escapes(fp, i, shown, kind)
        except guards.Budget:
            ctx.undecided(['%s: %s: too many ways' % (i.loc, what)])
            continue
        if e is None:
            continue
        if succ and all(field(ck, f, s, lo, hi) for s in succ):
            continue
        ctx.report('%s:%s' % (f.clean, what), i.loc, '%s: a value of %s outside %s is not refused (reaches %s)' % (
            f.clean, what, show(lo, hi), e.loc))
    ctx.need('payloads decoded', ncall, 50)
    for e in sorted(set(lim) - seen):
        ctx.note('no call decoding %s found' % e) if hasattr(ctx, 'note') else None
    ctx.need('elements with limits', len(seen), 50)
    ns = 0
    for fn, kind, cls, fld, lo, hi, *unless in SUCC:
        fs = [f for f in p.fn.values() if f.clean == N + fn and not f.decl]
        for f in fs:
            fp = ck.P.on(f)
            ns += 1
            ctx.oblig(n=1)
            cell = cell_of(f, cls, fld)
            ws = guards.ways(fp, kind)
            if cell is None:
                ctx.report('%s:%s' % (f.clean, fld), '%s:%s' % (f.file, f.line), '%s: no place found for %s' % (f.clean, fld))
                continue
            if unless:
                # nothing is parsed on the ways on which the object was complete before
                pre = ((cell[0], (unless[0][0],), cell[2]))
                ws = [w for w in ws if not guards.inside(fp, (('entry', pre), 0), unless[0][1], None, w[1], w[3])]
            bad = [w for w in ws if not guards.holds(fp, cell, lo, hi, w)]
            if bad or not ws:
                bad = bad or [(None, 0)]
                ctx.report('%s:%s:ok' % (f.clean, fld), last(f, bad[0]), '%s may report success with %s outside %s' % (
                    f.clean, fld, show(lo, hi)))
    ctx.need('success obligations', ns, 15)
    nb = 0
    for fn, callee, k, sets in BEFORE:
        for f in (f for f in p.fn.values() if f.clean == N + fn and not f.decl):
            fp = ck.P.on(f)
            calls = [i for i in f.calls() if (p.callee_name(i) or '') == N + callee]
            nb += len(calls)
            ctx.oblig(n=len(calls))
            v = fp.node(('a', k))
            shown = lambda fp, bb, fs: any(guards.tested(fp, v, lo, hi, bb, fs) for lo, hi in sets)
            try:
                e = guards.escapes(fp, None, shown, None, stop=lambda i: i in calls)
            except guards.Budget:
                ctx.undecided(['%s: too many ways to %s' % (fn, callee)])
                continue
            if e is not None:
                ctx.report('%s:arg%d' % (f.clean, k), e.loc, '%s reads although argument %s was not shown to be in %s' % (
                    f.clean, f.args[k] or k, ' or '.join(show(*x) for x in sets)))
    ctx.need('reads of the decoding helpers', nb, 9)
    nst = 0
    for fn, cls, fld, what, lo, hi in STORES:
        for f in (f for f in p.fn.values() if f.clean == N + fn and not f.decl):
            fp = ck.P.on(f)
            for i in f.all():
                if i.op != 'store':
                    continue
                c = fp.cell(i.o[1])
                if cls is None:
                    if not (c and c[0][0] == 'a' and c[0][1] > 0 and not c[1] and f.ptypes[c[0][1]].endswith('*&')) or \
                            fp.node(i.o[0]) == (Z, 0):
                        continue
                elif not (ir.terms(f).member(i.o[1])[1:3] == ([fld], N + cls) or
                          c and c[2] == N + cls and c[1] == (fld,) or neighbour(p, f, i, N + cls, fld)):
                    continue
                nst += 1
                ctx.oblig(n=1)
                ok = False
                if what == 'value':
                    ok = guards.inside(fp, fp.node(i.o[0]), lo, hi, i.bb)
                else:
                    for a in f.all():
                        if a.op == 'alloca' and N + what[0] in str(a.aty):
                            n = fp.version((('loc', a.id), (what[1],), N + what[0]), i.bb, i.idx)
                            ok = ok or guards.inside(fp, n, lo, hi, i.bb)
                if not ok:
                    nm = fld if what == 'value' else what[1]
                    ctx.report('%s:%s:store' % (f.clean, nm), i.loc, '%s: keeps %s without showing it to be in %s' % (f.clean, nm, show(lo, hi)))
    ctx.need('values kept by parsing functions', nst, 10)
    floats(ctx, ck)
    unique(ctx, ck)
    mandatory(ctx, ck)


def fns(p, name):
    return [f for f in p.fn.values() if f.clean == N + name and not f.decl]


def floats(ctx, ck):
    p = ctx.prog
    for f in fns(p, 'UnserializeFloat'):
        fp = ck.P.on(f)
        ctx.oblig(n=2)
        for w in guards.ways(fp, 'const'):
            have = set()
            conds = list(f.dom_facts(w[1]))
            for pb, m in w[2]:
                conds += f.edge_conds(pb, m)
            for c in conds:
                if c[0] != 'c' or c[1][0] != 'i':
                    continue
                v, truth = c[1], c[2]
                i = f.inst(v)
                while i.op in ('zext', 'trunc', 'xor') and i.o[0][0] == 'i':
                    truth = not truth if i.op == 'xor' else truth
                    i = f.inst(i.o[0])
                if i.op == 'icmp' and fp.node(i.o[1]) == (Z, 0) and i.o[0][0] == 'i':
                    truth = truth if i.pred == 'ne' else not truth
                    i = f.inst(i.o[0])
                nm = p.callee_name(i) or '' if i.op in ('call', 'invoke') else ''
                nm = nm.split('::')[-1].split('<')[0].strip('_')
                same = i.op == 'fcmp' and i.o[0] == i.o[1]
                if nm.startswith('isnan') and not truth or i.op == 'fcmp' and (i.pred == 'uno' and not truth or i.pred == 'ord' and truth) or \
                        same and (i.pred == 'une' and not truth or i.pred == 'oeq' and truth):
                    have.add('NaN')
                if nm.startswith('isinf') and not truth:
                    have.add('infinity')
                if nm.startswith(('isfinite', 'finite')) and truth:
                    have |= {'NaN', 'infinity'}
            for x in ('NaN', 'infinity'):
                if x not in have:
                    ctx.report('%s:%s' % (f.clean, x), last(f, w), '%s may hand out %s as a value' % (f.clean, x))
    # the duration in nanoseconds has to fit
    for f in fns(p, 'SegmentInfo::Parse'):
        fp = ck.P.on(f)
        ctx.oblig(n=1)
        for w in guards.ways(fp, 'zero'):
            cs = [fp.version((('a', 0), (m,), N + 'SegmentInfo'), w[0].bb, w[0].idx) for m in ('m_duration', 'm_timecodeScale')]
            cs = [guards.back(fp, c, w) for c in cs]
            n = ('fmul',) + tuple(sorted(cs, key=str))
            if not fp.prove((n, 0), (Z, 0), 9223372036854774784.0, w[1], w[3]):
                ctx.report('%s:product' % f.clean, last(f, w), '%s may accept a duration that does not fit into 63 bits of nanoseconds' % f.clean)
                break


def unique(ctx, ck):
    """a track is handed out only when no track of that number is there yet"""
    p = ctx.prog
    for f in fns(p, 'Tracks::ParseTrackEntry'):
        fp = ck.P.on(f)
        look = [i for i in f.calls() if (p.callee_name(i) or '') == N + 'Tracks::GetTrackByNumber']
        for i in f.all():
            if i.op == 'store':
                c = fp.cell(i.o[1])
                if not (c and c[0][0] == 'a' and not c[1] and f.ptypes[c[0][1]].endswith('*&')) or fp.node(i.o[0]) == (Z, 0):
                    continue
                ctx.oblig(n=1)
                if not any(guards.inside(fp, fp.node(('i', l.id)), None, 0, i.bb) for l in look):
                    ctx.report('%s:unique' % f.clean, i.loc, '%s: hands out a track although another may have its number' % f.clean)


# a parsing function does not report success before it decoded the element
MANDATORY = [('ContentEncoding::ParseCompressionEntry', 'ContentCompAlgo')]


def mandatory(ctx, ck):
    p = ctx.prog
    for fn, el in MANDATORY:
        for f in fns(p, fn):
            fp = ck.P.on(f)
            blocks = {i.bb for g, i, nm in readers(p) if g is f and el in ck.elements(fp, i.bb)}
            ctx.oblig(n=1)
            cut = {(a, b) for b in blocks for a in f.preds()[b]}
            shown = lambda fp, bb, fs: bb in blocks
            try:
                e = guards.escapes(fp, None, shown, guards_kind(f))
            except guards.Budget:
                ctx.undecided(['%s: too many ways' % fn])
                continue
            if e is not None or not blocks:
                ctx.report('%s:%s:mandatory' % (f.clean, el), e.loc if e else '%s:%s' % (f.file, f.line), '%s may report success without a %s element' % (f.clean, el))


def guards_kind(f):
    return kind_of(f)


def neighbour(p, f, i, cls, fld):
    """the member of one of the following elements of an array"""
    m = ir.terms(f).member(i.o[1])
    t = p.types.get(cls)
    if m[2] is not None or len(m[1]) != 1 or not re.match(r'\+\d+$', m[1][0]) or not t or not t.get('size'):
        return False
    for x in t['members']:
        if x[0] == 'field' and x[1] == fld and cls.startswith(f.cls + '::'):
            return int(m[1][0][1:]) % t['size'] == x[2] and i.sz == x[3]
    return False


def last(f, w):
    b = f.blocks[w[1]]
    return b[-1].loc


def show(lo, hi):
    return '[%s, %s]' % ('-' if lo is None else lo, '-' if hi is None else hi)


def cell_of(f, cls, fld):
    if cls is None:
        for k, t in enumerate(f.ptypes):
            if (f.args[k] or '') == fld or t.rstrip().endswith('&'):
                return (('a', k), (), None)
        return None
    for k, t in enumerate(f.ptypes):
        t2 = re.sub(r'\bconst\b', '', t).replace('*', '').replace('&', '').strip()
        if t2 == N + cls:
            return (('a', k), (fld,), N + cls)
    return None


def field(ck, f, s, lo, hi):
    cls, fld = s.rsplit('.', 1)
    cell = cell_of(f, cls, fld)
    if cell is None:
        return False
    fp = ck.P.on(f)
    return all(guards.holds(fp, cell, lo, hi, w) for w in guards.ways(fp, kind_of(f)))
