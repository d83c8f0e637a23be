"""C15: copies and forwarding calls carry every field."""
import re

import flow
import ir
import own

# function: (source, destination class, source class, fresh destination?)   source: argument number
COPIES = {
    'mkvmuxer::Frame::CopyFrom': (1, 'mkvmuxer::Frame', 'mkvmuxer::Frame', False),
    'mkvmuxer::VideoTrack::SetColour': (1, 'mkvmuxer::Colour', 'mkvmuxer::Colour', True),
    'mkvmuxer::Colour::SetMasteringMetadata': (1, 'mkvmuxer::MasteringMetadata', 'mkvmuxer::MasteringMetadata', True),
    'mkvmuxer::VideoTrack::SetProjection': (1, 'mkvmuxer::Projection', 'mkvmuxer::Projection', True),
    'mkvparser::Track::Info::Copy': (0, 'mkvparser::Track::Info', 'mkvparser::Track::Info', True),
    'mkvmuxer::Chapter::ShallowCopy': (0, 'mkvmuxer::Chapter', 'mkvmuxer::Chapter', False),
    'mkvmuxer::Tag::ShallowCopy': (0, 'mkvmuxer::Tag', 'mkvmuxer::Tag', False),
    'mkvparser::Chapters::Edition::ShallowCopy': (0, 'mkvparser::Chapters::Edition', 'mkvparser::Chapters::Edition', False),
    'mkvparser::Chapters::Atom::ShallowCopy': (0, 'mkvparser::Chapters::Atom', 'mkvparser::Chapters::Atom', False),
    'mkvparser::Chapters::Display::ShallowCopy': (0, 'mkvparser::Chapters::Display', 'mkvparser::Chapters::Display', False),
    'mkvparser::Tags::Tag::ShallowCopy': (0, 'mkvparser::Tags::Tag', 'mkvparser::Tags::Tag', False),
    'mkvparser::Tags::SimpleTag::ShallowCopy': (0, 'mkvparser::Tags::SimpleTag', 'mkvparser::Tags::SimpleTag', False),
    'libwebm::CopyPrimaryChromaticity': (0, 'mkvmuxer::PrimaryChromaticity', 'mkvparser::PrimaryChromaticity', True),
    'libwebm::CopyMasteringMetadata': (0, 'mkvmuxer::MasteringMetadata', 'mkvparser::MasteringMetadata', True),
    'libwebm::CopyColour': (0, 'mkvmuxer::Colour', 'mkvparser::Colour', True),
    'mkvmuxer::(anonymous namespace)::CopyChromaticity': (0, 'mkvmuxer::PrimaryChromaticity',
                                                          'mkvmuxer::PrimaryChromaticity', True),
}
F5 = {1: 'frame_', 2: 'length_', 3: 'track_number_', 4: 'timestamp_', 5: 'is_key_'}
ADD = {1: 'frame_', 2: 'length_', 3: 'additional_', 4: 'additional_length_', 5: 'add_id_', 6: 'track_number_',
       7: 'timestamp_', 8: 'is_key_'}
PAD = {1: 'frame_', 2: 'length_', 3: 'discard_padding_', 4: 'track_number_', 5: 'timestamp_', 6: 'is_key_'}
META = {1: 'frame_', 2: 'length_', 3: 'track_number_', 4: 'timestamp_', 5: 'duration_'}
# function: (number of arguments, {argument: field of the frame})
CALLS = {}
for _c in ('mkvmuxer::Segment', 'mkvmuxer::Cluster'):
    CALLS[_c + '::AddFrame'] = (6, F5)
    CALLS[_c + '::AddFrameWithAdditional'] = (9, ADD)
    CALLS[_c + '::AddFrameWithDiscardPadding'] = (7, PAD)
    CALLS[_c + '::AddMetadata'] = (6, META)
SETTERS = {'mkvmuxer::MasteringMetadata::SetChromaticity': {1: 'r_', 2: 'g_', 3: 'b_', 4: 'white_point_'},
           'mkvmuxer::Frame::Init': {1: 'frame_', 2: 'length_'},
           'mkvmuxer::Frame::AddAdditionalData': {1: 'additional_', 2: 'additional_length_', 3: 'add_id_'},
           'mkvmuxer::Projection::SetProjectionPrivate': {1: 'private_data_', 2: 'private_data_length_'},
           'mkvmuxer::Track::SetCodecPrivate': {1: 'codec_private_', 2: 'codec_private_length_'},
           'mkvmuxer::ContentEncoding::SetEncryptionID': {1: 'enc_key_id_', 2: 'enc_key_id_length_'}}
CLS = {'mkvmuxer::MasteringMetadata::SetChromaticity': 'mkvmuxer::MasteringMetadata',
       'mkvmuxer::Frame::Init': 'mkvmuxer::Frame', 'mkvmuxer::Frame::AddAdditionalData': 'mkvmuxer::Frame',
       'mkvmuxer::Projection::SetProjectionPrivate': 'mkvmuxer::Projection',
       'mkvmuxer::Track::SetCodecPrivate': 'mkvmuxer::Track',
       'mkvmuxer::ContentEncoding::SetEncryptionID': 'mkvmuxer::ContentEncoding'}
SENTINEL = {0, -1, (1 << 64) - 1, (1 << 63) - 1, -(1 << 63)}
STALE, RESET, SKIP, COPIED, OTHER = 'stale', 'reset', 'absent', 'copied', 'other'


def norm(n):
    return re.sub(r'^m_', '', n).strip('_').lower()


class Data:
    """where values come from: fields of the source object and arguments"""

    def __init__(self, p):
        self.p = p
        self.sums = {}
        self.busy = set()
        self.fills = None       # instructions that put the source into the local or buffer of the value looked at

    def fill(self, i, got):
        if self.fills is not None and got:
            self.fills.add(i.id)

    def fields(self, c):
        return [m for m in self.p.fields(c) if not m[1].startswith('_vptr')]

    def top(self, f, a, cls):
        """(base operand, field name) of the address within an object of class cls; None when it is not one"""
        T = ir.terms(f)
        b, off, var = T.split(a)
        if var:
            return None
        vt = None
        if b[0] == 'i' and f.inst(b).op == 'alloca':
            vt = f.inst(b).vty
            vt = self.p.strip(vt) if vt else None
        elif b[0] in 'ia':
            vt = T.vtype(b)
            vt = self.p.pointee(vt) if vt else None
        if vt != cls:
            m = T.member(a)
            if m[2] == cls and m[1] and not m[4]:
                return m[0], m[1][-1]
            return None
        r = self.p.field_at(cls, off)
        if r is None:
            return None
        return b, r[0][1]

    def srcs(self, f, v, scls, sroot, seen=None, depth=0):
        """set of source fields / ('arg', n) / OTHER a value is a plain copy of"""
        seen = seen if seen is not None else set()
        if v in seen or depth > 40:
            return set()
        seen.add(v)
        if v[0] == 'a':
            return {('arg', v[1])}
        if v[0] == 'k' and int(v[1]) in (1, -1):
            return {('const',), ('true',)}
        if v[0] != 'i':
            return {('const',)}
        i = f.inst(v)
        go = lambda x: self.srcs(f, x, scls, sroot, seen, depth + 1)
        if i.op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'fpext', 'fptrunc', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr'):
            return go(i.o[0])
        if i.op == 'and' and i.o[1][0] == 'k' and int(i.o[1][1]) in (1, -1):
            return go(i.o[0])
        if i.op == 'icmp' and i.pred == 'ne' and i.o[1][0] == 'k' and int(i.o[1][1]) == 0:
            return go(i.o[0])
        if i.op == 'phi':
            out = set()
            for x, _ in i.phi:
                out |= go(x)
            return out
        if i.op == 'select':
            return go(i.o[1]) | go(i.o[2])
        if i.op == 'load':
            t = self.top(f, i.o[0], scls) if scls else None
            if t and self.same(f, t[0], sroot):
                return {t[1]}
            b, off, var = ir.terms(f).split(i.o[0])
            if b[0] == 'i' and f.inst(b).op == 'alloca':
                return self.local(f, b, scls, sroot, seen, depth)
            if b[0] == 'a' and sroot is None:
                return {('deref', b[1])}
            return {OTHER}
        if i.op == 'getelementptr':
            t = self.top(f, v, scls) if scls else None
            if t and self.same(f, t[0], sroot):
                return {t[1]}
            return {OTHER}
        if i.op in ('call', 'invoke'):
            if own.is_alloc(i) or 'Alloc' in (self.p.callee_name(i) or ''):
                return self.content(f, i, scls, sroot, seen, depth)
            return {OTHER}
        if i.op == 'alloca':
            return self.local(f, v, scls, sroot, seen, depth)
        return {OTHER}

    def same(self, f, b, root):
        """is the base the source object (argument root)?"""
        return root is not None and all(o == ('a', root) for o in own.origins(f, b))

    def local(self, f, b, scls, sroot, seen, depth):
        out = set()
        T = ir.terms(f)
        for i in f.all():
            if i.op == 'store' and T.split(i.o[1])[0] == b and i.o[0][0] not in ('n', 'z'):
                out |= self.srcs(f, i.o[0], scls, sroot, seen, depth + 1)
            elif i.op in ('call', 'invoke') and any(x[0] == 'i' and T.split(x)[0] == b for x in i.o):
                if (i.callee or '').startswith('llvm.') and 'memcpy' not in i.callee:
                    continue
                for n, x in enumerate(i.o):
                    if n == 0 and self.isobj(f, x, self.dcls):
                        continue                # handed to the destination: the call reads the local
                    if x[0] in 'ia' and T.split(x)[0] != b:
                        got = {y for y in self.srcs(f, x, scls, sroot, seen, depth + 1) if y != OTHER and y[0] not in ('const', 'true')}
                        self.fill(i, got)
                        out |= got
        return out or {('const',)}

    def content(self, f, al, scls, sroot, seen, depth):
        """what is copied into a new buffer or object"""
        out = set()
        T = ir.terms(f)
        for i in f.all():
            if i.op not in ('call', 'invoke'):
                continue
            nm = i.callee or ''
            if re.search(r'mem(cpy|move)|strcpy|strncpy', nm):
                if self.to(f, i.o[0], al):
                    got = self.srcs(f, i.o[1], scls, sroot, set(), depth + 1)
                    self.fill(i, got - {OTHER, ('const',), ('true',)})
                    out |= got
                continue
            # a new object: constructor, setters and copy functions called on it
            if nm.startswith('llvm.') or own.freed_arg(self.p, i) is not None or '~' in self.p.callee_name(i):
                continue
            if any(x[0] == 'i' and ('i', al.id) in own.origins(f, x) for x in i.o):
                for x in i.o:
                    if x[0] in 'ia' and ('i', al.id) not in own.origins(f, x):
                        out |= {y for y in self.srcs(f, x, scls, sroot, set(seen), depth + 1) if y != OTHER and y[0] not in ('const', 'true')}
        for i in f.all():
            if i.op == 'store' and ('i', al.id) in own.origins(f, i.o[1]) and i.o[0][0] == 'i' and (
                    f.inst(i.o[0]).op == 'load' and T.split(i.o[1])[2]):
                # element by element
                got = set()
                for b in own.origins(f, f.inst(i.o[0]).o[0]):
                    got |= self.srcs(f, b, scls, sroot, set(seen), depth + 1)
                out |= got
            elif i.op == 'store' and ('i', al.id) in own.origins(f, i.o[1]) and i.o[0][0] in 'ia':
                out |= {y for y in self.srcs(f, i.o[0], scls, sroot, set(seen), depth + 1) if y != OTHER and y[0] not in ('const', 'true')}
        return out or {OTHER}

    def to(self, f, v, al):
        """does the address lead to the allocation, directly or through the field it was stored in?"""
        for o in own.origins(f, v):
            if o == ('i', al.id):
                return True
            if o[0] == 'i' and f.inst(o).op == 'load':
                T = ir.terms(f)
                ta = T.addr(f.inst(o).o[0])
                for s in f.all():
                    if s.op == 'store' and T.addr(s.o[1]) == ta and ('i', al.id) in own.origins(f, s.o[0]):
                        return True
        return False

    def setter(self, g):
        """{(argument j, object argument k, field)}: the call puts argument j into the field"""
        if g.name in self.sums:
            return self.sums[g.name]
        if g.name in self.busy or g.decl:
            return set()
        self.busy.add(g.name)
        out = set()
        c = self.dcls
        keep, self.fills = self.fills, None
        for i in g.all():
            if i.op == 'store':
                t = self.top(g, i.o[1], c)
                if t and t[0][0] == 'a':
                    for s in self.srcs(g, i.o[0], None, None):
                        if s[0] == 'arg' or s[0] == 'deref':
                            out.add((s[1], t[0][1], t[1]))
            elif i.op in ('call', 'invoke') and i.o and not (i.callee or '').startswith('llvm.'):
                for h in self.p.targets(i):
                    if not h.repo or h.decl:
                        continue
                    for j, k, G in self.setter(h):
                        if j < len(i.o) and k < len(i.o):
                            for s in self.srcs(g, i.o[j], None, None):
                                for o in own.origins(g, i.o[k]):
                                    if s[0] in ('arg', 'deref') and o[0] == 'a':
                                        out.add((s[1], o[1], G))
        self.fills = keep
        self.busy.discard(g.name)
        self.sums[g.name] = out
        return out

    def transfers(self, f, i, scls, sroot):
        """[(destination field, set of sources)] of an instruction"""
        c = self.dcls
        out = []
        if i.op == 'store':
            t = self.top(f, i.o[1], c)
            if t and not self.same(f, t[0], sroot):
                out.append((t[1], self.srcs(f, i.o[0], scls, sroot)))
        elif i.op in ('call', 'invoke'):
            nm = i.callee or ''
            if 'memcpy' in nm and len(i.o) > 1 and i.o[0][0] in 'ia':
                t = self.top(f, i.o[0], c)
                if t and not self.same(f, t[0], sroot):
                    s = self.top(f, i.o[1], scls) if scls else None
                    if s and self.same(f, s[0], sroot):
                        out.append((t[1], {s[1]}))
            if nm.startswith('llvm.'):
                return out
            if not i.callee and not self.p.targets(i) and any(self.isobj(f, x, c) for x in i.o if x[0] in 'ia'):
                # called through a pointer that is not resolved: may set whatever field it is given
                for x in i.o:
                    if x[0] in 'ia':
                        for s in self.srcs(f, x, scls, sroot):
                            if s not in (OTHER, ('const',), ('true',)):
                                for G, w in self.want.items():
                                    if w == s:
                                        out.append((G, {w}))
            for g in self.p.targets(i):
                if not g.repo or g.decl:
                    continue
                if g.clean in CALLS and g.nargs == CALLS[g.clean][0] and scls is None and i.o[0] == ('a', 0):
                    for j, G in CALLS[g.clean][1].items():
                        out.append((G, self.srcs(f, i.o[j], None, None)))
                    if CALLS[g.clean][1] is META:
                        out.append(('is_key_', {('true',)}))
                    continue
                # copy of a member named by a pointer to member
                if len(i.o) == 3 and i.o[1][0] == 'k' and 'CopyStr' in g.bname and scls == c:
                    r = self.p.field_at(c, int(i.o[1][1]))
                    if r and self.same(f, i.o[0], sroot):
                        out.append((r[0][1], {r[0][1]}))
                    continue
                by = {}
                for j, k, G in self.setter(g):
                    if j < len(i.o) and k < len(i.o) and j != k and not self.same(f, i.o[k], sroot):
                        if not self.isobj(f, i.o[k], c):
                            continue
                        by.setdefault(G, set()).update(self.srcs(f, i.o[j], scls, sroot))
                for G, s in by.items():
                    out.append((G, s))
                # the object is made from a part of the source by another copy function
                for k, x in enumerate(i.o):
                    pass
        return out

    def isobj(self, f, v, c):
        T = ir.terms(f)
        b, off, var = T.split(v)
        if b[0] == 'i' and f.inst(b).op == 'alloca':
            vt = f.inst(b).vty
            return bool(vt) and self.p.strip(vt) == c
        for o in own.origins(f, v):
            if o[0] in ('n', 'z'):
                continue
            if o[0] == 'i' and own.is_alloc(f.inst(o)):
                continue
            vt = T.vtype(o) if o[0] in 'ia' else None
            if not vt or self.p.pointee(vt) != c:
                return False
        return True


def absent1(d, f, v, truth, scls, sroot, out, depth):
    if v[0] != 'i' or depth > 8:
        return
    i = f.inst(v)
    if i.op == 'xor':
        return absent1(d, f, i.o[0], not truth, scls, sroot, out, depth + 1)
    if i.op == 'and' and truth or i.op == 'or' and not truth:
        absent1(d, f, i.o[0], truth, scls, sroot, out, depth + 1)
        absent1(d, f, i.o[1], truth, scls, sroot, out, depth + 1)
        return
    if i.op == 'select':
        # a && b: select a, b, false      a || b: select a, true, b
        if truth and i.o[2][0] == 'k' and int(i.o[2][1]) == 0:
            absent1(d, f, i.o[0], True, scls, sroot, out, depth + 1)
            absent1(d, f, i.o[1], True, scls, sroot, out, depth + 1)
        if not truth and i.o[1][0] == 'k' and int(i.o[1][1]) != 0:
            absent1(d, f, i.o[0], False, scls, sroot, out, depth + 1)
            absent1(d, f, i.o[2], False, scls, sroot, out, depth + 1)
        return
    eq = None
    if i.op == 'icmp' and i.o[1][0] in ('k', 'n', 'z'):
        k = 0 if i.o[1][0] != 'k' else int(i.o[1][1])
        if i.pred in ('eq', 'ne') and k in SENTINEL:
            eq = (i.pred == 'eq') == truth
        elif i.pred == 'ugt' and k == 0 or i.pred == 'uge' and k == 1:
            eq = not truth
        elif i.pred == 'ult' and k == 1 or i.pred == 'ule' and k == 0:
            eq = truth
    elif i.op == 'fcmp' and i.o[1][0] == 'fp':
        if i.pred in ('oeq', 'ueq'):
            eq = truth
        elif i.pred in ('one', 'une'):
            eq = not truth
    if eq:
        d.fills = set()
        got = d.srcs(f, i.o[0], scls, sroot)
        copied, d.fills = d.fills, None
        if copied:
            return              # tells about the copy, not about the source
        for x in got:
            if isinstance(x, str) and x != OTHER:
                out.add(x)
            elif x[0] == 'arg' and scls is None:
                out.add(x)


EXTRA = {'frame_': {'length_'}, 'length_': {'frame_'}, 'additional_': {'additional_length_', 'add_id_'},
         'additional_length_': {'additional_', 'add_id_'}, 'private_data_': {'private_data_length_'},
         'private_data_length_': {'private_data_'}, 'codecPrivate': {'codecPrivateSize'},
         'codecPrivateSize': {'codecPrivate'}}


LEN = {'frame_': 'length_', 'additional_': 'additional_length_', 'private_data_': 'private_data_length_',
       'codecPrivate': 'codecPrivateSize', 'codec_private_': 'codec_private_length_', 'enc_key_id_': 'enc_key_id_length_'}


def lengths(ctx, d, f, G, i, scls, sroot, dcls, want):
    """as many bytes are copied as the length field says"""
    if G not in LEN or LEN[G] not in want or not re.search('mem(cpy|move)', i.callee or ''):
        return
    L, w = LEN[G], want[LEN[G]]
    v = i.o[2]
    got = d.srcs(f, v, scls, sroot)
    if got == {OTHER}:
        while v[0] == 'i' and f.inst(v).op in ('zext', 'trunc', 'freeze', 'sext'):
            v = f.inst(v).o[0]
        if v[0] == 'i' and f.inst(v).op == 'load':
            t = d.top(f, f.inst(v).o[0], dcls)
            if t and t[1] == L:
                got = {w}
    if got == {('deref', 0)} and ir.terms(f).member(f.inst(v).o[0])[1][-1:] == [L]:
        got = {w}
    if w not in got or got - {w, ('const',), ('true',)}:
        ctx.report('%s:%s:bytes' % (f.clean, G), i.loc, '%s: the number of bytes copied into %s is %s instead of %s' % (
            f.clean, G, fmt(got, f), fmt({w}, f)))
    ctx.oblig(n=1)


CODE = [STALE, RESET, SKIP, COPIED, OTHER]


class Carry(flow.Explorer):
    """follows what one destination field holds along every path"""
    slim = True

    def __init__(self, d, f, G, F, tr, sinks, scls, sroot):
        super().__init__(f)
        self.d, self.G, self.F, self.tr, self.sinks = d, G, F, tr, sinks
        self.scls, self.sroot = scls, sroot
        self.bad = None
        self.last = None
        self.isbool = f.rty in ('i1', 'i8', 'bool')

    def get(self, st):
        return CODE[st['env'][('st',)][0]]

    def put(self, st, x):
        st['env'][('st',)] = (CODE.index(x),) * 2

    def note(self, st):
        if self.bad is None and self.get(st) not in (COPIED, SKIP):
            self.bad = (self.get(st), self.last if self.get(st) == OTHER else None)

    def judge(self, r, st):
        if r.o:
            v = self.val(r.o[0], st)
            if self.isbool and v == (0, 0) or not self.isbool and (
                    v[0] is not None and v[0] > 0 or v[1] is not None and v[1] < 0 or self.nz(r.o[0], st)):
                return
        self.note(st)

    def nz(self, v, st):
        v = self.root(v, st)
        return v[0] == 'i' and ('nz', v[1]) in st['env']

    def step(self, i, st, given=None):
        if i.id in self.sinks:
            self.note(st)
        st['env'].pop(('nz', i.id), None)
        super().step(i, st, given)
        for G, s in self.tr.get(i.id, ()):
            if G != self.G:
                continue
            if self.F in s and not (s - {self.F, ('const',), ('true',), OTHER}):
                self.put(st, COPIED)
            elif s <= {('const',), ('true',)}:
                if self.get(st) != SKIP:
                    self.put(st, RESET)
            else:
                self.put(st, OTHER)
                self.last = (i, s)

    def assume(self, cond, truth, st, depth=0):
        c = self.root(cond, st)
        if c[0] == 'i':
            i = self.fn.inst(c)
            if i.op == 'icmp' and i.pred in ('eq', 'ne') and (i.pred == 'eq') == truth and i.o[1][0] == 'k' \
                    and int(i.o[1][1]) == 0 and self.nz(i.o[0], st):
                return False
        if not super().assume(cond, truth, st, depth):
            return False
        c = self.root(cond, st)
        if depth == 0 and c[0] == 'i':
            i = self.fn.inst(c)
            if i.op == 'icmp' and i.pred in ('eq', 'ne'):
                if (i.pred == 'eq') == truth and i.o[0][0] == 'a' and i.o[1][0] == 'a':
                    return False            # source and destination are the same object
                if (i.pred == 'ne') == truth and i.o[1][0] == 'k' and int(i.o[1][1]) == 0:
                    r = self.root(i.o[0], st)
                    if r[0] == 'i':
                        st['env'][('nz', r[1])] = (1, 1)
            gone = set()
            absent1(self.d, self.fn, c, truth, self.scls, self.sroot, gone, 0)
            for F in list(gone):
                if isinstance(F, str):
                    gone |= EXTRA.get(F, set())
            if self.F in gone and self.get(st) == RESET:
                self.put(st, SKIP)
        return True


def strings(ctx, p):
    """the string helpers copy the whole string"""
    n = 0
    for name in ('mkvparser::Track::Info::CopyStr', 'mkvmuxer::(anonymous namespace)::StrCpy'):
        for f in p.get(name):
            if f.decl:
                continue
            lens = {i.id: i.o[0] for i in f.calls() if i.callee == 'strlen'}
            for i in f.all():
                if i.op not in ('call', 'invoke') or not re.search('mem(cpy|move)|strncpy', i.callee or ''):
                    continue
                n += 1
                v, k = i.o[2], 0
                while v[0] == 'i' and f.inst(v).op in ('add', 'sub', 'zext', 'trunc', 'freeze'):
                    j = f.inst(v)
                    if j.op in ('add', 'sub'):
                        if j.o[1][0] != 'k':
                            break
                        k += int(j.o[1][1]) * (1 if j.op == 'add' else -1)
                    v = j.o[0]
                ctx.oblig(n=1)
                if v[0] != 'i' or v[1] not in lens or k not in (0, 1) or own.origins(f, lens[v[1]]) != own.origins(f, i.o[1]):
                    ctx.report('%s:bytes' % f.clean, i.loc, '%s: the number of bytes copied is not the length of the string' % f.clean)
    ctx.count('string copies', n)


def examine(ctx, d, f, scls, sroot, dcls, want, fresh, what, fwd=False):
    """want: {destination field: source field or ('arg', n)}"""
    d.dcls = dcls
    d.sums, d.busy = {}, set()
    p = d.p
    tr = {}
    want = dict(want)
    d.want = dict(want)
    for i in f.all():
        d.fills = set()
        for G, s in d.transfers(f, i, scls, sroot):
            if G in want:
                tr.setdefault(i.id, []).append((G, s))
                if want[G] in s and d.fills:
                    # the bytes or the part are put in place by other instructions: at least one has to run too
                    G2 = (G, min(d.fills))
                    want[G2] = want[G]
                    for n in d.fills:
                        tr.setdefault(n, []).append((G2, {want[G]}))
                        lengths(ctx, d, f, G, f.inst(('i', n)), scls, sroot, dcls, want)
        d.fills = None
    sinks = set()
    for i in f.calls():
        if fwd and any(x[0] == 'i' and f.inst(x).op == 'alloca' and d.isobj(f, x, dcls) for x in i.o) and not all(
                g.cls == dcls for g in p.targets(i)):
            sinks.add(i.id)
    for G in want:
        ex = Carry(d, f, G, want[G], tr, sinks, scls, sroot)
        first = f.blocks[0][0]
        st0 = RESET if fresh or isinstance(G, tuple) else STALE
        try:
            for kind, r, st, _ in ex.run(first, None, env0={('st',): (CODE.index(st0),) * 2}):
                if kind == 'ret':
                    ex.judge(r, st)
        except flow.TooMany as e:
            ctx.undecided('%s:%s' % (f.clean, G), str(e))
        if ex.bad:
            w, i = ex.bad
            N = G[0] if isinstance(G, tuple) else G
            what = fmt(i[1], f) if i else ''
            ctx.report('%s:%s' % (f.clean, N), i[0].loc if i else '%s:%s' % (f.file, f.line), '%s: %s' % (
                f.clean, ('%s gets %s instead of %s' % (N, what, fmt({want[G]}, f)) if w == OTHER else
                          '%s is not given the value of %s on every successful path' % (N, fmt({want[G]}, f)))))
    ctx.oblig(n=len(want))
    ctx.count('fields carried', len(want))


def fmt(s, f):
    if not s:
        return 'nothing'
    return ' or '.join(sorted('argument %s' % (f.args[x[1]] if x[1] < len(f.args) else x[1]) if isinstance(x, tuple) and x[0] in ('arg', 'deref')
                              else 'true' if x == ('true',) else 'a constant' if isinstance(x, tuple) else x for x in s if x != OTHER) or ['something else'])


def run(ctx):
    p = ctx.prog
    ctx.rule('For every copy and forwarding function: along every path that can return success, each destination field '
             'must end up holding a plain copy (casts only; for buffers a new buffer with the bytes copied in) of the '
             'corresponding source field or argument. A path may leave it at its reset value only across a branch on '
             'which that source field was found to be null, zero or the not-present value. Setters and helper copies '
             'are followed by argument-to-field summaries.')
    d = Data(p)
    n = 0
    for name, (sroot, dcls, scls, fresh) in sorted(COPIES.items()):
        fs = [f for f in p.get(name) if not f.decl]
        for f in fs:
            n += 1
            sf = {norm(m[1]): m[1] for m in d.fields(scls)}
            want = {}
            for m in d.fields(dcls):
                if norm(m[1]) in sf:
                    want[m[1]] = sf[norm(m[1])]
                else:
                    ctx.count('fields without counterpart')
            examine(ctx, d, f, scls, sroot, dcls, want, fresh, name)
    for name, (na, m) in sorted(CALLS.items()):
        for f in p.get(name):
            if f.decl or f.nargs != na:
                continue
            n += 1
            examine(ctx, d, f, None, None, 'mkvmuxer::Frame', dict(
                {G: ('arg', a) for a, G in m.items()}, **({'is_key_': ('true',)} if m is META else {})), True, name, True)
    for name, m in sorted(SETTERS.items()):
        for f in p.get(name):
            if f.decl:
                continue
            n += 1
            examine(ctx, d, f, None, None, CLS[name], {G: ('arg', a) for a, G in m.items()}, False, name)
    strings(ctx, p)
    ctx.need('copy functions', n, 15)
