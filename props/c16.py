"""C16: every value mkvparser hands out is the one read from the element the accessor is named after."""
import os
import sys

import ir
import prov

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec'))
import schema  # noqa: E402

NS = 'mkvparser::'
UNSET = 9223372036854775807
# element, accessor (Class::Method) and/or member (Class.member), how the payload must be read, value when absent,
# further elements the value may legitimately depend on
TABLE = '''
EBMLVersion            EBMLHeader.m_version uint 1
EBMLReadVersion        EBMLHeader.m_readVersion uint 1
EBMLMaxIDLength        EBMLHeader.m_maxIdLength uint 4
EBMLMaxSizeLength      EBMLHeader.m_maxSizeLength uint 8
DocType                EBMLHeader.m_docType string 0
DocTypeVersion         EBMLHeader.m_docTypeVersion uint 1
DocTypeReadVersion     EBMLHeader.m_docTypeReadVersion uint 1
TimecodeScale          SegmentInfo::GetTimeCodeScale uint 1000000
Duration               SegmentInfo::GetDuration float -1 TimecodeScale
MuxingApp              SegmentInfo::GetMuxingAppAsUTF8 string 0
WritingApp             SegmentInfo::GetWritingAppAsUTF8 string 0
Title                  SegmentInfo::GetTitleAsUTF8 string 0
TrackType              Track::GetType uint -
TrackNumber            Track::GetNumber uint -
TrackUID               Track::GetUid Read -
Name                   Track::GetNameAsUTF8 string 0
Language               Track::GetLanguage string 0
CodecName              Track::GetCodecNameAsUTF8 string 0
CodecID                Track::GetCodecId string 0
CodecPrivate           Track::GetCodecPrivate Read 0
CodecPrivate           Track::Info.codecPrivateSize header 0
FlagLacing             Track::GetLacing uint -
DefaultDuration        Track::GetDefaultDuration uint 0
CodecDelay             Track::GetCodecDelay uint 0
SeekPreRoll            Track::GetSeekPreRoll uint 0
PixelWidth             VideoTrack::GetWidth uint -
PixelHeight            VideoTrack::GetHeight uint -
DisplayWidth           VideoTrack::GetDisplayWidth uint - PixelWidth
DisplayHeight          VideoTrack::GetDisplayHeight uint - PixelHeight
DisplayUnit            VideoTrack::GetDisplayUnit uint 0
StereoMode             VideoTrack::GetStereoMode uint 0
FrameRate              VideoTrack::GetFrameRate float -
ColourSpace            VideoTrack::GetColourSpace|VideoTrack.m_colour_space string 0
SamplingFrequency      AudioTrack::GetSamplingRate float 8000
Channels               AudioTrack::GetChannels uint 1
BitDepth               AudioTrack::GetBitDepth uint 0
MatrixCoefficients     Colour.matrix_coefficients uint unset
BitsPerChannel         Colour.bits_per_channel uint unset
ChromaSubsamplingHorz  Colour.chroma_subsampling_horz uint unset
ChromaSubsamplingVert  Colour.chroma_subsampling_vert uint unset
CbSubsamplingHorz      Colour.cb_subsampling_horz uint unset
CbSubsamplingVert      Colour.cb_subsampling_vert uint unset
ChromaSitingHorz       Colour.chroma_siting_horz uint unset
ChromaSitingVert       Colour.chroma_siting_vert uint unset
Range                  Colour.range uint unset
TransferCharacteristics Colour.transfer_characteristics uint unset
Primaries              Colour.primaries uint unset
MaxCLL                 Colour.max_cll uint unset
MaxFALL                Colour.max_fall uint unset
LuminanceMax           MasteringMetadata.luminance_max float fltmax
LuminanceMin           MasteringMetadata.luminance_min float fltmax
ProjectionType         Projection.type uint -
ProjectionPrivate      Projection.private_data Read 0
ProjectionPrivate      Projection.private_data_length header 0
ProjectionPoseYaw      Projection.pose_yaw float fltmax
ProjectionPosePitch    Projection.pose_pitch float fltmax
ProjectionPoseRoll     Projection.pose_roll float fltmax
ContentEncodingOrder   ContentEncoding::encoding_order|ContentEncoding.encoding_order_ uint 0
ContentEncodingScope   ContentEncoding::encoding_scope|ContentEncoding.encoding_scope_ uint 1
ContentEncodingType    ContentEncoding::encoding_type|ContentEncoding.encoding_type_ uint 0
ContentCompAlgo        ContentEncoding::ContentCompression.algo uint 0
ContentCompSettings    ContentEncoding::ContentCompression.settings Read 0
ContentCompSettings    ContentEncoding::ContentCompression.settings_len header 0
AESSettingsCipherMode  ContentEncoding::ContentEncAESSettings.cipher_mode uint 1
ContentEncAlgo         ContentEncoding::ContentEncryption.algo uint 0
ContentEncKeyID        ContentEncoding::ContentEncryption.key_id Read 0
ContentEncKeyID        ContentEncoding::ContentEncryption.key_id_len header 0
ContentSignature       ContentEncoding::ContentEncryption.signature Read 0
ContentSignature       ContentEncoding::ContentEncryption.signature_len header 0
ContentSigKeyID        ContentEncoding::ContentEncryption.sig_key_id Read 0
ContentSigKeyID        ContentEncoding::ContentEncryption.sig_key_id_len header 0
ContentSigAlgo         ContentEncoding::ContentEncryption.sig_algo uint 0
ContentSigHashAlgo     ContentEncoding::ContentEncryption.sig_hash_algo uint 0
ChapString             Chapters::Display::GetString string 0
ChapLanguage           Chapters::Display::GetLanguage string 0
ChapCountry            Chapters::Display::GetCountry string 0
ChapterStringUID       Chapters::Atom::GetStringUID string 0
ChapterUID             Chapters::Atom::GetUID int -
ChapterTimeStart       Chapters::Atom::GetStartTimecode uint -1
ChapterTimeStart       Chapters::Atom::GetStartTime uint - TimecodeScale
ChapterTimeEnd         Chapters::Atom::GetStopTimecode uint -1
ChapterTimeEnd         Chapters::Atom::GetStopTime uint - TimecodeScale
TagName                Tags::SimpleTag::GetTagName string 0
TagString              Tags::SimpleTag::GetTagString string 0
SeekID                 SeekHead::Entry.id id -
SeekPosition           SeekHead::Entry.pos uint -
CueTime                CuePoint::GetTimeCode uint - CueClusterPosition
CueTrack               CuePoint::TrackPosition.m_track uint -
CueClusterPosition     CuePoint::TrackPosition.m_pos uint -
CueBlockNumber         CuePoint::TrackPosition.m_block uint 1
Timecode               Cluster::GetTimeCode uint -
ReferenceBlock         BlockGroup::GetPrevTimeCode int -
ReferenceBlock         BlockGroup::GetNextTimeCode int -
BlockDuration          BlockGroup::GetDurationTimeCode uint -1
DiscardPadding         Block::GetDiscardPadding int 0
'''
VALUE = {'uint', 'int', 'float', 'string', 'Read', 'header'}


def rows():
    ids = schema.ids()
    for l in TABLE.strip().splitlines():
        w = l.split()
        yield w[0], ids[schema.norm(w[0])], w[1], w[2], w[3], {ids[schema.norm(x)] for x in w[4:]}


def run(ctx):
    p = ctx.prog
    ctx.rule('For every public accessor and public member that carries an element\'s payload, the value is traced '
             'backwards through fields, locals, parameters, buffers and results to the reads it comes from; each read '
             'lies where the element id just parsed is known (from the comparisons on the path). The ids found must be '
             'the id of the element the accessor stands for, the payload must be decoded as the type of that element, '
             'and the value documented for an absent element must be among the constants it can start with.')
    ids = set(schema.ids().values())
    nm = {v: k for k, v in schema.ids().items()}
    P = prov.Prov(p, lambda f: f.file.startswith('mkvparser/'), ids)
    used = tested(P, ids)
    und = []
    n = 0
    for elem, kid, target, kind, dflt, extra in rows():
        o, what, where = origins(p, P, target)
        if o is None:
            und.append('%s: %s is not in the compiled program' % (elem, target))
            continue
        n += 1
        reads = [(k, K, loc) for k, K, loc in o if k not in ('const', 'glob') and
                 (k in VALUE or k == kind or (k == 'id' and kind == 'id'))]
        got = {x for k, K, loc in reads for x in K}
        ctx.oblig()
        if kid not in used:
            ctx.report('element:%s' % elem, where, '%s: element %s (0x%X) is never looked for, so %s cannot carry it' % (
                what, elem, kid, what))
            continue
        if not got:
            if not reads and all(k == 'const' for k, _, _ in o):
                ctx.report('element:%s' % elem, where, '%s never carries a value read from the file (element %s)' % (
                    what, elem))
            else:
                und.append('%s: the reads %s comes from are not guarded by an element id' % (elem, what))
            continue
        bad = [(k, K, loc) for k, K, loc in reads if not K <= extra | {kid} and K]
        if kid not in got:
            ctx.report('element:%s' % elem, where, '%s carries %s, not %s' % (
                what, ', '.join('element %s (read at %s)' % ('/'.join(nm.get(x, hex(x)) for x in sorted(K)), loc)
                                for k, K, loc in reads if K), elem))
            continue
        if bad:
            ctx.report('element:%s' % elem, where, '%s (element %s) can also carry %s' % (
                what, elem, ', '.join('element %s (read at %s)' % ('/'.join(nm.get(x, hex(x)) for x in sorted(K)), loc)
                                      for k, K, loc in bad)))
            continue
        mine = [(k, loc) for k, K, loc in reads if kid in K]
        wrong = [(k, loc) for k, loc in mine if not fits(k, kind)]
        if wrong:
            ctx.report('kind:%s' % elem, where, '%s: element %s is read as %s at %s, it is of type %s' % (
                what, elem, wrong[0][0], wrong[0][1], kind))
            continue
        if dflt != '-':
            want = {'unset': UNSET, 'fltmax': 'fltmax'}.get(dflt) or int(dflt)
            consts = {num(v) for k, v, _ in o if k == 'const'}
            if want not in consts:
                ctx.report('default:%s' % elem, where, '%s is not set to %s when element %s is absent (it starts as %s)' % (
                    what, dflt, elem, ', '.join(str(c) for c in sorted(consts, key=str)) or 'no constant'))
                continue
        ctx.sample('%s <- element %s at %s' % (what, elem, mine[0][1]))
    chroma(ctx, p, P, und)
    ctx.need('accessors and members traced', n, 60)
    ctx.undecided(und)
    ctx.assume('fields are traced per class, not per object: a value that moves between two objects of one class is '
               'taken to stay in the same field\'s set of sources')


def fits(k, kind):
    if k == kind or k == 'Read':
        return True
    if kind == 'Read':
        return k in ('uint', 'string')     # raw bytes taken through a typed reader: bytes are what they are
    return False


def num(v):
    try:
        x = float(v)
    except (TypeError, ValueError):
        return v
    if isinstance(v, str) and x > 3e38:
        return 'fltmax'
    return int(x) if x == int(x) and abs(x) < 2**53 else (int(v) if isinstance(v, int) else x)


def tested(P, ids):
    out = set()
    for f in P.fns:
        for i in f.all():
            if i.op == 'icmp':
                out |= {int(o[1]) for o in i.o if o[0] == 'k'}
            elif i.op == 'switch':
                out |= {v for v, _ in i.cases}
    return out & ids


def origins(p, P, target):
    for t in target.split('|'):
        if '.' in t:
            cls, m = t.rsplit('.', 1)
            cls = NS + cls
            if cls in p.types and any(x[1] == m for x in p.fields(cls)):
                return P.field(cls, m), t, first(P, cls, m)
        else:
            f = next((x for x in p.get(NS + t) if not x.decl), None)
            if f:
                out = set()
                for r in f.rets():
                    if r.o:
                        out |= P.value(f, r.o[0])
                return out, t + '()', '%s:%s' % (f.file, f.line)
    return None, target, ''


def first(P, cls, m):
    s = P.stores.get((cls, m)) or [(None, x[1], None) for x in P.outs.get((cls, m), [])]
    return s[0][1].loc if s else 'mkvparser/mkvparser.h'


def chroma(ctx, p, P, und):
    """the four chromaticities: per element id, which coordinate of which member is filled"""
    ids = schema.ids()
    call = None
    for f in P.fns:
        for c in f.calls():
            g = [t for t in p.targets(c) if t.repo and t.clean == NS + 'PrimaryChromaticity::Parse']
            if g:
                call = (f, c, g[0])
    if not call:
        und.append('chromaticities: no call of the chromaticity reader found')
        return
    f, c, g = call
    boolarg = [n for n, t in enumerate(g.ptypes) if t == 'bool']
    ptrarg = [n for n, t in enumerate(g.ptypes) if 'PrimaryChromaticity' in t]
    if len(boolarg) != 1 or len(ptrarg) != 1:
        und.append('chromaticities: the chromaticity reader has another signature')
        return
    I = P.idsof(f)
    xy = axis(P, g, boolarg[0])
    if xy is None:
        und.append('chromaticities: which coordinate the chromaticity reader fills is not understood')
    for name, mem in (('R', 'r'), ('G', 'g'), ('B', 'b'), ('WhitePoint', 'white_point')):
        base = 'Primary%sChromaticity' % name if len(name) == 1 else name + 'Chromaticity'
        for ax in 'XY':
            kid = ids[schema.norm(base + ax)]
            ps = feasible(P, I, f, c.o[ptrarg[0]], kid)
            bs = feasible(P, I, f, c.o[boolarg[0]], kid)
            fld = {P.fk(f, v) for v in ps}
            if len(ps) != 1 or len(fld) != 1 or None in fld or len(bs) != 1:
                und.append('%s%s: not resolved' % (base, ax))
                continue
            b = const(P, I, f, bs.pop(), kid)
            if b is None:
                und.append('%s%s: coordinate not resolved' % (base, ax))
                continue
            ctx.oblig()
            ctx.count('chromaticity coordinates')
            got = fld.pop()[1]
            if got != mem:
                ctx.report('element:%s%s' % (base, ax), c.loc, 'element %s%s fills member %s, not %s' % (base, ax, got, mem))
            if xy is not None and xy.get(b) not in (None, ax.lower()):
                ctx.report('element:%s%s' % (base, ax), c.loc, 'element %s%s fills the %s coordinate' % (base, ax, xy[b]))


def feasible(P, I, f, v, kid, depth=0):
    """values operand v can have when the last id is kid"""
    if v[0] == 'i' and depth < 6:
        i = f.inst(v)
        if i.op == 'phi':
            out = set()
            for x, b in i.phi:
                e = I.edges.get((b, i.bb))
                if e is None:
                    continue
                K = I.flat(e)
                if not K or kid in K:
                    out |= feasible(P, I, f, x, kid, depth + 1)
            return out
        if i.op in ('zext', 'trunc'):
            return feasible(P, I, f, i.o[0], kid, depth + 1)
    return {v} if v[0] != 'n' else set()


def const(P, I, f, v, kid):
    if v[0] == 'k':
        return bool(int(v[1]))
    if v[0] == 'i':
        i = f.inst(v)
        if i.op == 'icmp' and i.pred in ('eq', 'ne'):
            ks = [int(o[1]) for o in i.o if o[0] == 'k']
            if len(ks) == 1:
                return (ks[0] == kid) == (i.pred == 'eq')
    return None


def axis(P, g, n):
    """{bool value of argument n: coordinate written}"""
    out = {}
    T = ir.terms(g)
    for i in g.all():
        if i.op != 'store':
            continue
        addr = i.o[1]
        a = g.inst(addr) if addr[0] == 'i' else None
        if a is not None and a.op in ('phi', 'select'):
            if a.op == 'select' and uses_arg(g, a.o[0], n):
                for val, x in ((True, a.o[1]), (False, a.o[2])):
                    k = P.fk(g, x)
                    if k and k[1] in ('x', 'y'):
                        out[val] = k[1]
            elif a.op == 'phi':
                for x, b in a.phi:
                    k = P.fk(g, x)
                    t = truth(g, b, a.bb, n)
                    if k and k[1] in ('x', 'y') and t is not None:
                        out[t] = k[1]
        else:
            k = P.fk(g, addr)
            if k and k[0].endswith('PrimaryChromaticity') and k[1] in ('x', 'y'):
                t = truth(g, None, i.bb, n)
                if t is not None:
                    out[t] = k[1]
    return out if len(out) == 2 else None


def uses_arg(g, v, n):
    while v[0] == 'i' and g.inst(v).op in ('trunc', 'zext'):
        v = g.inst(v).o[0]
    if v[0] == 'i' and g.inst(v).op == 'icmp':
        return any(uses_arg(g, o, n) for o in g.inst(v).o)
    return v == ('a', n)


def truth(g, b, s, n):
    conds = list(g.dom_facts(b if b is not None else s))
    if b is not None:
        conds += g.edge_conds(b, s)
    for c in conds:
        if c[0] == 'c' and c[1][0] == 'i':
            i = g.inst(c[1])
            if i.op == 'icmp' and uses_arg(g, c[1], n):
                z = any(o[0] == 'k' and int(o[1]) == 0 for o in i.o)
                if z:
                    return c[2] == (i.pred == 'ne')
                return c[2] == (i.pred == 'eq')
            if i.op in ('trunc',) and uses_arg(g, c[1], n):
                return c[2]
        elif c[0] == 'c' and c[1] == ('a', n):
            return c[2]
    return None
