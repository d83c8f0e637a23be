"""C07: the muxer writes each property of an object in the element that stands for it, whenever it is set."""
import os
import sys

import bytesum as bs
import c04
import ir

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec'))
import schema  # noqa: E402

# writer class or '-', element, member(s), when it may be left out: '-' never, 'null' pointer not set,
# '=V' the member equals V, '<=0' floating and not positive; 'with M' present exactly when M is
TABLE = '''
Track TrackNumber number_ -
Track TrackUID uid_ -
Track TrackType type_ -
Track MaxBlockAdditionID max_block_additional_id_ =0
Track CodecDelay codec_delay_ =0
Track SeekPreRoll seek_pre_roll_ =0
Track DefaultDuration default_duration_ =0
Track CodecID codec_id_ null
Track CodecPrivate codec_private_,codec_private_length_ null
Track Language language_ null
Track Name name_ null
ContentEncoding ContentEncodingOrder encoding_order_ -
ContentEncoding ContentEncodingScope encoding_scope_ -
ContentEncoding ContentEncodingType encoding_type_ -
ContentEncoding ContentEncAlgo enc_algo_ -
ContentEncoding ContentEncKeyID enc_key_id_,enc_key_id_length_ null
ContentEncAESSettings AESSettingsCipherMode cipher_mode_ -
VideoTrack PixelWidth pixel_width_,width_ -
VideoTrack PixelHeight pixel_height_,height_ -
VideoTrack DisplayWidth display_width_ =0
VideoTrack DisplayHeight display_height_ =0
VideoTrack PixelCropLeft crop_left_ =0
VideoTrack PixelCropRight crop_right_ =0
VideoTrack PixelCropTop crop_top_ =0
VideoTrack PixelCropBottom crop_bottom_ =0
VideoTrack StereoMode stereo_mode_ =0
VideoTrack AlphaMode alpha_mode_ =0
VideoTrack ColourSpace colour_space_ null
VideoTrack FrameRate frame_rate_ <=0
Colour MatrixCoefficients matrix_coefficients_ =-1
Colour BitsPerChannel bits_per_channel_ =-1
Colour ChromaSubsamplingHorz chroma_subsampling_horz_ =-1
Colour ChromaSubsamplingVert chroma_subsampling_vert_ =-1
Colour CbSubsamplingHorz cb_subsampling_horz_ =-1
Colour CbSubsamplingVert cb_subsampling_vert_ =-1
Colour ChromaSitingHorz chroma_siting_horz_ =-1
Colour ChromaSitingVert chroma_siting_vert_ =-1
Colour Range range_ =-1
Colour TransferCharacteristics transfer_characteristics_ =-1
Colour Primaries primaries_ =-1
Colour MaxCLL max_cll_ =-1
Colour MaxFALL max_fall_ =-1
MasteringMetadata LuminanceMax luminance_max_ =fltmax
MasteringMetadata LuminanceMin luminance_min_ =fltmax
MasteringMetadata PrimaryRChromaticityX r_.x_ with r_
MasteringMetadata PrimaryRChromaticityY r_.y_ with r_
MasteringMetadata PrimaryGChromaticityX g_.x_ with g_
MasteringMetadata PrimaryGChromaticityY g_.y_ with g_
MasteringMetadata PrimaryBChromaticityX b_.x_ with b_
MasteringMetadata PrimaryBChromaticityY b_.y_ with b_
MasteringMetadata WhitePointChromaticityX white_point_.x_ with white_point_
MasteringMetadata WhitePointChromaticityY white_point_.y_ with white_point_
Projection ProjectionType type_ -
Projection ProjectionPrivate private_data_,private_data_length_ with private_data_length_
Projection ProjectionPoseYaw pose_yaw_ -
Projection ProjectionPosePitch pose_pitch_ -
Projection ProjectionPoseRoll pose_roll_ -
AudioTrack SamplingFrequency sample_rate_ -
AudioTrack Channels channels_ -
AudioTrack BitDepth bit_depth_ =0
CuePoint CueTime time_ -
CuePoint CueTrack track_ -
CuePoint CueClusterPosition cluster_pos_ -
CuePoint CueBlockNumber block_number_ <2 with output_block_number_
Chapter ChapterStringUID id_ null
Chapter ChapterUID uid_ -
Chapter ChapterTimeStart start_timecode_ -
Chapter ChapterTimeEnd end_timecode_ -
Chapter::Display ChapString title_ null
Chapter::Display ChapLanguage language_ null
Chapter::Display ChapCountry country_ null
Tag::SimpleTag TagName tag_name_ null
Tag::SimpleTag TagString tag_string_ null
Cluster Timecode timecode_ -
SegmentInfo TimecodeScale timecode_scale_ -
SegmentInfo Duration duration_ <=0
SegmentInfo DateUTC date_utc_ =-9223372036854775808
SegmentInfo MuxingApp muxing_app_ null
SegmentInfo WritingApp writing_app_ null
- BlockAddID add_id_ with additional_
- BlockAdditional additional_,additional_length_ null
- DiscardPadding discard_padding_ =0
- ReferenceBlock reference_block_timestamp_ scaled unless is_key_
- BlockDuration duration_ scaled =0
- EBMLVersion 1 -
- EBMLReadVersion 1 -
- EBMLMaxIDLength 4 -
- EBMLMaxSizeLength 8 -
- DocType arg -
- DocTypeVersion arg -
- DocTypeReadVersion 2 -
'''
KIND = {'uint': 'u', 'bool': 'u', 'int': 'i', 'float': 'f', 'string': 's', 'binary': 'b', 'id': 'bu', 'date': 'd'}


def rows():
    ids = schema.ids()
    for l in TABLE.strip().splitlines():
        w = l.split()
        yield (w[0], w[1], ids[schema.norm(w[1])], w[2].split(','), w[3:])


def run(ctx):
    p = ctx.prog
    ctx.rule('Every element the muxer writes is extracted with its id, the value written, the conditions it is written '
             'under and the element it lies in (by the byte accounting of C04). For each property of a muxer object, '
             'the element standing for it must be written with that property as its value, with the type of the '
             'element, left out only when the property is unset, and inside the element the schema nests it in. '
             'A block consists of track number, 2-byte relative time, flags and frame bytes in this order, and the '
             'simple form is used only for frames without additional data, discard padding and duration.')
    an = bs.Analyzer(p, c04.inns)
    und = []
    found = {}
    parents = schema_parents()
    lost = []
    nm = {v: k for k, v in schema.ids().items()}
    seen_par = set()
    for f, d in c04.roots(p, an):
        for variant in c04.variants(an, f, d):
            an.dynmap = variant
            an.pending = {}
            fr = c04.rootframe(an, f, d)
            try:
                seq = fr.emitted()
            except bs.Unknown as e:
                lost.append(f.clean)
                continue
            for a, i, ff, v in seq:
                e = elem(an, fr, a, i, ff)
                if e:
                    found.setdefault((short(f, ff, fr), e['id']), []).append(e)
                    found.setdefault(('*', e['id']), []).append(e)
            nesting(ctx, an, f, d, fr, seq, parents, nm, und, seen_par)
    n = 0
    for cls, name, kid, mem, opts in rows():
        es = found.get((cls, kid)) or ([] if cls != '-' else found.get(('*', kid)))
        if cls != '-' and not es:
            # the writer may have been moved: accept any writer of objects of that class
            es = [e for e in found.get(('*', kid), []) if e['own'] and e['own'].endswith('::' + cls)]
        ctx.oblig()
        if not es:
            if lost:
                und.append('%s: not found, and the writes of %s are not understood' % (name, ', '.join(lost[:3])))
                continue
            ctx.report('unwritten:%s:%s' % (cls, name), 'mkvmuxer/mkvmuxer.cc',
                       'element %s is never written, so %s is lost' % (name, ', '.join(mem)))
            continue
        n += 1
        for e in es:
            row(ctx, p, cls, name, mem, opts, e, und)
    ctx.need('properties traced to elements', n, 50)
    blocks(ctx, p, an, und)
    simple(ctx, p, an, und)
    ctx.undecided(dict.fromkeys(und))
    ctx.assume('objects are not modified between the size computation and the write within one call')


def short(f, ff, fr):
    c = ff.fn.cls if ff is fr or c04.base_chain(ff, fr) else f.cls
    return (c or '-').replace('mkvmuxer::', '')


def elem(an, fr, a, i, ff):
    g = ff.callee(i)
    if not g or g.cls or g.bname not in ('WriteEbmlElement', 'WriteEbmlDateElement'):
        return None
    args = [ff.t(x) for x in i.o]
    if args[1][0] != 'k':
        return None
    root = ff is fr or c04.base_chain(ff, fr)
    if not root and not (fr.fn.cls or '').endswith('MasteringMetadata'):
        return None          # seen from that writer itself
    gg, lp = ff.full(i)
    sig = an.overload(g, 1)
    kind = 'd' if g.bname == 'WriteEbmlDateElement' else sig[1]
    return dict(id=args[1][1], vals=args[2:4] if kind == 'b' else args[2:3], kind=kind, guards=gg,
                inst=i, fn=fr.fn, own=ff.fn.cls, cleaned=bs.clean_guards(a, gg))


def path(t):
    """dotted member path of a term below the written object; None when it is not a member"""
    t = ir.strip_casts(t)
    parts = []
    while t and t[0] == '.':
        parts.append(t[2])
        t = t[1]
    if not parts or t[0] not in ('obj', 'arg'):
        return None
    return '.'.join(parts[::-1])


def members(t, out=None):
    if out is None:
        out = set()
    if isinstance(t, tuple):
        q = path(t)
        if q:
            out.add(q)
        else:
            for x in t:
                members(x, out)
    return out


def unknown(t):
    if isinstance(t, tuple):
        if t and t[0] in ('?', 'phi', 'cyc', 'deep', 'loc'):
            return True
        return any(unknown(x) for x in t)
    return False


def row(ctx, p, cls, name, mem, opts, e, und):
    where = e['inst'].loc
    who = '%s in %s' % (name, e['fn'].clean.replace('mkvmuxer::', ''))
    want = schema.kinds().get(schema.norm(name))
    if want and e['kind'] not in KIND.get(want, e['kind']):
        ctx.report('kind:%s:%s' % (cls, name), where, 'element %s is written as %s, its type is %s' % (
            who, {'u': 'unsigned integer', 'i': 'signed integer', 'f': 'float', 's': 'string', 'b': 'binary',
                  'd': 'date'}[e['kind']], want))
    vals = [ir.strip_casts(v) for v in e['vals']]
    if any(unknown(v) for v in vals):
        und.append('%s: the value written at %s is not understood' % (who, where))
        return
    if mem[0] == 'arg':
        if vals[0][0] != 'arg':
            ctx.report('value:%s' % name, where, 'element %s does not carry the value asked for' % who)
        return
    if mem[0].isdigit():
        if vals[0] != ('k', int(mem[0])):
            ctx.report('value:%s' % name, where, 'element %s carries %s, not %s' % (who, ir.show(vals[0]), mem[0]))
        return
    got = [sorted(members(v)) for v in vals]
    scaled = 'scaled' in opts
    if len(mem) == 2 and e['kind'] == 'b':
        exp = [[m] for m in mem]
    elif len(mem) == 2:
        exp = [sorted(mem)]
    else:
        exp = [mem]
    if got != exp:
        ctx.report('value:%s:%s' % (cls, name), where, 'element %s is written with %s instead of %s' % (
            who, ' and '.join(ir.show(v) for v in vals), ' and '.join(mem)))
        return
    if len(exp[0]) == 1:
        v = vals[0]
        if scaled and v[0] in ('udiv', 'sdiv'):
            v = ir.strip_casts(v[1])
        elif scaled:
            v = None
        if v is None or path(v) != exp[0][0]:
            ctx.report('value:%s:%s' % (cls, name), where, 'element %s is written with %s instead of %s' % (
                who, ir.show(vals[0]), mem[0]))
            return
    elif e['kind'] == 'u':
        # first choice when set, else the second
        v = vals[0]
        ok = v[0] == 'sel' and v[1][0] == 'cmp' and members(v[1]) == {mem[0]} and (
            (v[1][1], path(v[2]), path(v[3])) in (('ne', mem[0], mem[1]), ('ugt', mem[0], mem[1]),
                                                  ('uge', mem[0], mem[1]), ('eq', mem[1], mem[0])))
        if not ok:
            ctx.report('value:%s:%s' % (cls, name), where, 'element %s is written with %s instead of %s' % (
                who, ir.show(vals[0]), ' or '.join(mem)))
            return
    # conditions
    for g in e['cleaned']:
        if unknown(g):
            und.append('%s: a condition of the write at %s is not understood' % (who, where))
            return
        if not allowed(g, mem, opts):
            ctx.report('cond:%s:%s' % (cls, name), where, 'element %s is left out unless %s, although %s may be set' % (
                who, ir.show(g), mem[0]))
            return
    ctx.sample('%s <- %s at %s' % (name, ', '.join(mem), where))


def allowed(g, mem, opts):
    """condition g only excludes values that mean unset"""
    o = ' '.join(opts)
    m = members(g)
    w = None
    if 'with ' in o:
        w = o.split('with ')[1].split()[0]
    if w and m == {w} and g[0] == 'cmp' and (g[1] == 'ne' and g[3] == ('k', 0) or g[1] == 'uge' and g[3] == ('k', 1)):
        return True
    if 'unless ' in o:
        u = o.split('unless ')[1].split()[0]
        if m == {u} and g[:2] == ('cmp', 'eq') and g[3] == ('k', 0):
            return True
    own = set(mem[:1])
    if not m <= set(mem):
        return False
    if not m:
        return False
    for x in opts:
        if x == 'null' and g[0] == 'cmp' and g[1] == 'ne' and g[3] == ('k', 0):
            return True
        if x == '<2' and g[0] == 'cmp' and (g[1], g[3]) in (('uge', ('k', 2)), ('ne', ('k', 1)), ('ne', ('k', 0)),
                                                            ('ugt', ('k', 1)), ('uge', ('k', 1)), ('ugt', ('k', 0))):
            return True
        if x == '<=0' and g[0] in ('fogt', 'fugt', 'fone', 'fune') and g[2][0] == 'fp' and float(g[2][1]) == 0:
            return True
        if x == '=fltmax' and g[0] in ('fune', 'fone') and g[2][0] == 'fp' and float(g[2][1]) > 3e38:
            return True
        if x.startswith('=') and x != '=fltmax' and g[0] == 'cmp':
            k = int(x[1:])
            if g[1] == 'ne' and g[3][0] == 'k' and (g[3][1] - k) % 2**64 == 0:
                return True
            if k == 0 and (g[1], g[3]) in (('uge', ('k', 1)), ('ugt', ('k', 0))):
                return True
            if k == -1 and g[1] in ('ult',) and (g[3][1] - k) % 2**64 == 0:
                return True
    return False


def schema_parents():
    ids = schema.ids()
    out = {}
    for name, par in schema.parents():
        if par:
            out.setdefault(ids[name], set()).add(ids[par])
    return out


def nesting(ctx, an, f, d, fr, seq, parents, nm, und, seen):
    """the element each element lies in"""
    try:
        its = c04.items(fr, seq)
    except bs.Unknown:
        return
    par = {}
    for n, (k, i, ff, pay, kind) in enumerate(its):
        if kind != 'M' or pay is None or pay == bs.WILD or bs.has_wild(pay):
            continue
        g, lp = ff.full(i)
        g = bs.clean_guards(('M',), g)
        left, extra, wild, used = c04.match(fr, its, n, c04.norm(pay, g, lp), g, lp)
        if wild or left or extra:
            continue
        for m in used:
            par[m] = n          # later headers are closer
    def ident(n):
        k, i, ff, pay, kind = its[n]
        if kind == 'pos':
            return None
        g = ff.callee(i)
        if not g or g.cls or not g.bname.startswith('WriteEbml'):
            return None
        t = ff.t(i.o[1])
        return t[1] if t[0] == 'k' else None
    for m, n in par.items():
        a, b = ident(m), ident(n)
        if a is None or b is None or a not in parents:
            continue
        if (a, b) not in seen:
            seen.add((a, b))
            ctx.count('nestings checked')
            ctx.oblig()
        if b not in parents[a]:
            ctx.report('nest:%s' % nm.get(a, hex(a)), its[m][1].loc, 'element %s is written inside %s, it belongs in %s' % (
                nm.get(a, hex(a)), nm.get(b, hex(b)), '/'.join(nm.get(x, hex(x)) for x in parents[a])))


def blocks(ctx, p, an, und):
    """layout of block payloads"""
    done = 0
    for f, d in c04.roots(p, an):
        an.dynmap, an.pending = {}, {}
        fr = c04.rootframe(an, f, d)
        try:
            seq = fr.emitted()
        except bs.Unknown:
            continue
        raws, simple, block = [], False, False
        for a, i, ff, v in seq:
            g = ff.callee(i)
            if ff is not fr:
                continue
            nmg = g.bname if g else 'Write'
            args = [ff.t(x) for x in i.o]
            if nmg == 'WriteID' and args[1] == ('k', 0xA3):
                simple, raws = True, []
            elif nmg == 'WriteEbmlMasterElement' and args[1] == ('k', 0xA1):
                block, raws = True, []
            elif nmg in ('WriteUInt', 'SerializeInt') or (a[0] == 'lin' and nmg == 'Write'):
                raws.append((nmg, args, i))
        if not (simple or block):
            continue
        if simple:
            raws = raws[1:]        # the size
        raws = raws[:4]
        done += 1
        ctx.oblig(n=4)
        ctx.count('block layouts')
        who = f.clean.replace('mkvmuxer::', '').replace('(anonymous namespace)::', '')
        if [r[0] for r in raws] != ['WriteUInt', 'SerializeInt', 'SerializeInt', 'Write'] or any(
                unknown(x) for r in raws for x in r[1][1:]):
            und.append('%s: the parts of the block are not recognised' % who)
            continue
        a, b, c, e = raws

        def bad(r, what):
            ctx.report('block:%s' % who, r[2].loc, '%s: %s' % (who, what))
        if path(a[1][1]) != 'track_number_':
            bad(a, 'the block starts with %s, not the track number' % ir.show(a[1][1]))
        tc = ir.strip_casts(b[1][1])
        if b[1][2] != ('k', 2) or tc[0] != 'arg':
            bad(b, 'the relative time of the block is written as %s in %s bytes' % (ir.show(b[1][1]), ir.show(b[1][2])))
        fl = ir.strip_casts(c[1][1])
        if c[1][2] != ('k', 1):
            bad(c, 'the flags take %s bytes' % ir.show(c[1][2]))
        elif simple and not (key_flag(fl)):
            bad(c, 'the key-frame flag of a simple block is written as %s' % ir.show(fl))
        elif block and fl != ('k', 0):
            bad(c, 'the flags of a block are written as %s' % ir.show(fl))
        if path(e[1][-2]) != 'frame_' or path(e[1][-1]) != 'length_':
            bad(e, 'the frame bytes are written from %s, %s bytes' % (ir.show(e[1][-2]), ir.show(e[1][-1])))
    if done < 2:
        und.append('block layouts: found %d of 2 block writers' % done)


def key_flag(t):
    if t[0] == 'sel' and members(t[1]) == {'is_key_'} and t[1][0] == 'cmp':
        v = (ir.strip_casts(t[2]), ir.strip_casts(t[3]))
        if t[1][1] == 'ne' and t[1][3] == ('k', 0) or t[1][1] == 'eq' and t[1][3] == ('k', 1):
            return v == (('k', 128), ('k', 0))
        if t[1][1] == 'eq' and t[1][3] == ('k', 0):
            return v == (('k', 0), ('k', 128))
    if t[0] in ('shl', 'mul') and members(t) == {'is_key_'}:
        return True
    return False


NEED = {'additional_', 'discard_padding_', 'duration_'}


def simple(ctx, p, an, und):
    """frames with block-group-only attributes never take the simple form"""
    sites = []
    for f in p.repo_fns(c04.inns):
        for i in f.calls():
            if i.o and len(i.o) == 2 and i.o[1][0] == 'k' and int(i.o[1][1]) == 0xA3 and called(i, p) == 'WriteID':
                sites.append((f, i))
    if not sites:
        und.append('simple blocks: no writer of simple blocks found')
        return
    ctx.oblig(n=3)
    for f, i in sites:
        have, where = at_site(p, an, f, i, 0)
        for m in sorted(NEED - have):
            ctx.report('simple:%s' % m, where,
                       'a frame whose %s is set can be written as a simple block, which drops it' % m)


def called(i, p):
    n = p.callee_name(i)
    return (n or '').split('::')[-1]


def at_site(p, an, f, i, depth):
    """members known to be zero where the call is made, in every context"""
    fr = c04.rootframe(an, f, f.cls)
    have = known(p, an, fr.facts(i.bb))
    if NEED <= have or depth > 3:
        return have, i.loc
    up = [(g, j) for g in p.repo_fns(c04.inns) for j in g.calls() if p.callee_name(j) == f.clean]
    if not up:
        return have, i.loc
    acc, where = None, i.loc
    for g, j in up:
        h, w = at_site(p, an, g, j, depth + 1)
        if acc is None or not acc <= h:
            where = w
        acc = h if acc is None else acc & h
    return have | acc, where


def known(p, an, facts):
    out = zeros(facts)
    for g in facts or ():
        if isinstance(g, tuple) and g[0] == 'cmp' and g[2][0] == 'call' and (
                g[1] == 'ne' and g[3] == ('k', 0) or g[1] == 'eq' and g[3] == ('k', 1)):
            for h in p.get(g[2][1]):
                if not h.decl:
                    out = out | holds(an, h)
    return out


def holds(an, f):
    fr = bs.Frame(an, f, [('obj', 'this')] + [('arg', n, a or 'a') for n, a in enumerate(f.args)][1:], f.cls)
    have = None
    for r in f.rets():
        h = implied(fr, f, r.o[0], r.bb)
        have = h if have is None else have & h
    return have or set()


def implied(fr, f, v, b, depth=0):
    """members known to be zero when v is true"""
    ALL = {'additional_', 'discard_padding_', 'duration_'}
    zero = zeros(fr.facts(b))
    if v[0] == 'k':
        return zero if int(v[1]) else ALL
    if v[0] != 'i' or depth > 8:
        return zero
    i = f.inst(v)
    if i.op == 'phi':
        out = None
        for x, pb in i.phi:
            h = implied(fr, f, x, pb, depth + 1) | zeros(fr.edge(pb, i.bb))
            out = h if out is None else out & h
        return (out or set()) | zero
    if i.op in ('zext', 'trunc', 'freeze'):
        return implied(fr, f, i.o[0], b, depth + 1)
    if i.op in ('and',):
        return implied(fr, f, i.o[0], b, depth + 1) | implied(fr, f, i.o[1], b, depth + 1)
    if i.op == 'select' and i.o[2][0] == 'k' and int(i.o[2][1]) == 0:
        return implied(fr, f, i.o[0], b, depth + 1) | implied(fr, f, i.o[1], b, depth + 1)
    return zero | zeros(bs.flat(fr.cond(v, True)))


def zeros(gs):
    out = set()
    for g in gs or ():
        if isinstance(g, tuple) and g[:2] == ('cmp', 'eq') and g[3] == ('k', 0):
            q = path(g[2])
            if q:
                out.add(q)
    return out
