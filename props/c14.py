"""C14: memory is reached only inside the buffer it belongs to."""
import os
import re

import bounds
import build
import c11
import ir
import mod
import own

Z = bounds.Z
M, P = 'mkvmuxer::', 'mkvparser::'
# pointer and length kept side by side: (class, pointer, length)
PAIRS = [
    (M + 'Frame', 'frame_', 'length_'),
    (M + 'Frame', 'additional_', 'additional_length_'),
    (M + 'Track', 'codec_private_', 'codec_private_length_'),
    (M + 'ContentEncoding', 'enc_key_id_', 'enc_key_id_length_'),
    (M + 'Projection', 'private_data_', 'private_data_length_'),
    (P + 'Projection', 'private_data', 'private_data_length'),
    (P + 'Track::Info', 'codecPrivate', 'codecPrivateSize'),
    (P + 'ContentEncoding::ContentCompression', 'settings', 'settings_len'),
    (P + 'ContentEncoding::ContentEncryption', 'key_id', 'key_id_len'),
    (P + 'ContentEncoding::ContentEncryption', 'signature', 'signature_len'),
    (P + 'ContentEncoding::ContentEncryption', 'sig_key_id', 'sig_key_id_len'),
    ('libwebm::VideoFrame::Buffer', 'data', 'capacity'),
    ('vp9_parser::Vp9HeaderParser', 'frame_', 'frame_size_'),
]
# ranges a successful call establishes for a field of an object it is given
RANGED = [(M + 'Frame', ('track_number_',), 1, 126)]
# success means that the buffer has room for as many bytes as asked for
ROOMY = [('libwebm::VideoFrame::Buffer', ('capacity',), 'libwebm::VideoFrame::Buffer'),
         ('libwebm::VideoFrame', ('buffer_', 'capacity'), 'libwebm::VideoFrame::Buffer')]
# counts that never exceed a number
CAPS = [(M + 'Tracks', 'track_entries_size_', 126)]
BYPTR = {}
for _c, _a, _b in PAIRS:
    BYPTR.setdefault((_c, _a), []).append(_b)
# one number never exceeds another one of the same object ('#': elements of a container)
ORDERED = [('libwebm::VideoFrame::Buffer', ('length',), ('capacity',)),
           ('webm::ByteParser<', ('total_read_',), ('value_', '#'))]


def ofclass(c, cls):
    return c is not None and (c == cls or cls.endswith('<') and c.startswith(cls))


def atpath(n, old, new):
    c = n[-1]
    return n[:-1] + ((c[0], c[1][:len(c[1]) - len(old)] + new, c[2]),)


BYLEN = {}
for _c, _a, _b in PAIRS:
    BYLEN.setdefault((_c, _b), []).append(_a)
C11ARR = {(a.cls, a.arr) for a in c11.ARRAYS} | {(c, b) for c, b, e in c11.RANGES} | {(c, e) for c, b, e in c11.RANGES}
SKIP = ('demo/', '_sample', 'sample_', 'webm_info', 'dumpvtt', 'vttdemux', '_main.cc')
INT = re.compile(r'^(unsigned |signed )?(char|short|int|long|long long)$')
SIZED = {'char': 1, 'unsigned char': 1, 'short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'double': 8}


def scope(f):
    return not f.decl and not any(s in f.file for s in SKIP)


def stdname(p, i):
    nm = p.callee_name(i) or ''
    if not nm.startswith('std::'):
        return None
    d, out = 0, []
    k = 0
    while k < len(nm):
        ch = nm[k]
        if nm.startswith('operator', k):
            out.append(nm[k:])
            break
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
        k += 1
    s = ''.join(out)
    m = re.match(r'^std::unique_ptr::(get|reset|unique_ptr|release|operator=)', s)
    if m:
        return 'up.' + m.group(1)
    if re.match(r'^std::(__cxx11::)?(vector|basic_string|array|deque)::', s):
        return s.split('::')[-1] if 'operator' not in s else s[s.index('operator'):]
    return None


NORESIZE = ('operator[]', 'size', 'length', 'empty', 'data', 'c_str', 'front', 'back', 'at', 'begin', 'end', 'find',
            'reserve', 'capacity', 'rbegin', 'rend', 'cbegin', 'cend', 'compare', 'substr', 'find_first_of', 'rfind', '~vector',
            'max_size', 'find_last_of', 'find_first_not_of', '~basic_string')


def moves(c):
    """a container method that may leave its argument with another size"""
    return 'EO' in (c.callee or '') or 'swap' in (c.callee or '')


def resizes(prog):
    """which containers (by field or parameter) a function may resize"""
    if hasattr(prog, '_rsz'):
        return prog._rsz
    fns = [f for f in prog.fn.values() if f.repo]
    S, sites = {}, {}
    for f in fns:
        S[f.name] = set()
        L = []
        for c in f.calls():
            s = stdname(prog, c)
            args = [mod.argkey(f, a) for a in c.o]
            if s is not None and not s.startswith('up.'):
                if s not in NORESIZE:
                    S[f.name] |= {a for a in args[:2 if moves(c) else 1] if a is not None and a[0] != 'L'}
                continue
            ts = prog.targets(c)
            if any(not t.repo for t in ts) and not (c.callee and mod.is_pure_ext(prog, c.callee)) and c.callee and not c.callee.startswith('llvm.'):
                for a in args:
                    if a is not None and a[0] != 'L':
                        S[f.name].add(a)
            L.append((args, [t.name for t in ts if t.repo]))
        sites[f.name] = L
    ch = True
    while ch:
        ch = False
        for f in fns:
            s = S[f.name]
            n0 = len(s)
            for args, ts in sites[f.name]:
                for t in ts:
                    for k in list(S[t]):
                        if k[0] in ('p', 'pd'):
                            if k[1] < len(args) and args[k[1]] is not None and args[k[1]][0] != 'L':
                                s.add(args[k[1]])
                        else:
                            s.add(k)
            ch = ch or len(s) != n0
    prog._rsz = S
    return S


def call_resizes(prog, fn, c):
    cache = fn._cache.setdefault('crz', {})
    if c.id in cache:
        return cache[c.id]
    S = resizes(prog)
    keys, locs = set(), set()
    args = [mod.argkey(fn, a) for a in c.o]
    ts = prog.targets(c)
    if any(not t.repo for t in ts) or not ts:
        for a in args[(0 if c.callee else 1):]:
            if a is not None:
                (locs.add(a[1]) if a[0] == 'L' else keys.add(a))
    for t in ts:
        if not t.repo:
            continue
        for k in S[t.name]:
            if k[0] in ('p', 'pd'):
                if k[1] < len(args) and args[k[1]] is not None:
                    a = args[k[1]]
                    (locs.add(a[1]) if a[0] == 'L' else keys.add(a))
            else:
                keys.add(k)
                if k[0] == 'f':
                    for a in args:
                        if a is not None and a[0] == 'L':
                            vt = fn.insts[a[1]].vty
                            vt = prog.strip(vt) if vt else None
                            if vt is None or vt == k[1] or vt in prog.types and (k[1] in prog.all_bases(vt) or mod.nested(prog, vt, k[1])):
                                locs.add(a[1])
    cache[c.id] = (keys, locs)
    return cache[c.id]


class Fn(bounds.FnProver):
    """adds the number of elements of standard containers"""

    def szcell(self, obj):
        b, off, var = self.T.split(obj)
        if b[0] == 'i' and self.f.inst(b).op == 'alloca' and not off and not var:
            return (('loc', b[1]), ('#',), None)
        c = self.cell(obj)
        if c is not None:
            return (c[0], c[1] + ('#',), c[2])
        if not off and not var:
            return (self.node(obj)[0], ('#',), None)
        return None

    def frozen(self, c):
        """reached through a pointer to const that the function was given"""
        if c[0][0] != 'a':
            return False
        t = self.f.ptypes[c[0][1]] if c[0][1] < len(self.f.ptypes) else ''
        return t.startswith('const ') and t.endswith(('*', '&'))

    def writes(self, i, c):
        if self.frozen(c):
            return None
        if not c[1] or c[1][-1] != '#':
            if i.op in ('call', 'invoke'):
                s = stdname(self.prog, i)
                if s == 'up.get':
                    return None
                if s in ('up.reset', 'up.unique_ptr') and i.o and self.cell(i.o[0]) == c:
                    if len(i.o) > 1 and mod.isptr(self.f, i.o[1]) and self.cell(i.o[1]) is None:
                        return self.node(i.o[1])
                    if len(i.o) == 1 or i.o[1][0] in ('n', 'z', 'k'):
                        return (Z, 0)
            return super().writes(i, c)
        base = (c[0], c[1][:-1], c[2])
        if i.op in ('call', 'invoke'):
            s = stdname(self.prog, i)
            if s is not None:
                if i.o and self.szcell(i.o[0]) == c:
                    if s in NORESIZE:
                        return None
                    if s == 'resize' or s in ('vector', 'assign') and len(i.o) > 1 and not mod.isptr(self.f, i.o[1]):
                        return self.node(i.o[1])
                    if s == 'operator=' and len(i.o) > 1 and mod.isptr(self.f, i.o[1]):
                        d = self.szcell(i.o[1])
                        if d is not None and d != c:
                            return self.version(d, i.bb, i.idx)
                    if s in ('push_back', 'emplace_back'):
                        n, o = self.version(c, i.bb, i.idx)
                        return (n, o + 1)
                    if s == 'pop_back':
                        n, o = self.version(c, i.bb, i.idx)
                        return (n, o - 1)
                    if s == 'clear' or s in ('vector', 'basic_string') and len(i.o) == 1:
                        return (Z, 0)
                    return (('clob', i.id, c), 0)
                if not moves(i):
                    return None
            if (i.callee or '').startswith('llvm.'):
                return None
            if s is None and i.callee and mod.is_pure_ext(self.prog, i.callee):
                return None
            keys, locs = call_resizes(self.prog, self.f, i)
            if c[0][0] == 'loc':
                return (('post', i.id, c), 0) if c[0][1] in locs else None
            if c[2] and ('f', c[2], c[1][-2]) in keys:
                return (('post', i.id, c), 0)
            if not c[2] and c[0][0] == 'a' and ('p', c[0][1]) in keys:
                return (('post', i.id, c), 0)
            if not c[2] and c[0][0] != 'a' and '*' in keys:
                return (('clob', i.id, c), 0)
            return None
        return None

    def _node(self, v):
        if v[0] == 'i':
            i = self.f.inst(v)
            if i.op == 'getelementptr' and i.off is None and i.voff is not None and len(i.voff) == 1:
                x, sc = i.voff[0]
                return (('gep', self.node(i.o[0]), self.node(x), sc), i.coff)
            if i.op in ('call', 'invoke'):
                s = stdname(self.prog, i)
                if s in ('size', 'length') and i.o:
                    c = self.szcell(i.o[0])
                    if c is not None:
                        return self.version(c, i.bb, i.idx)
                if s == 'up.get':
                    c = self.cell(i.o[0])
                    if c is not None:
                        return self.version(c, i.bb, i.idx)
        return super()._node(v)

    def where(self, n):
        if n[0] == 'gep':
            ws = [w for w in (self.where(n[1][0]), self.where(n[2][0])) if w is not None]
            if not ws:
                return None
            return ws[0] if len(ws) == 1 or self.f.dominates(ws[1], ws[0]) else ws[1]
        return super().where(n)

    def cond_facts(self, v, truth, depth=0):
        if v[0] == 'i':
            i = self.f.inst(v)
            if i.op in ('call', 'invoke') and stdname(self.prog, i) == 'empty' and i.o:
                c = self.szcell(i.o[0])
                if c is not None:
                    n, o = self.version(c, i.bb, i.idx)
                    return [(n, Z, -o), (Z, n, o)] if truth else [(Z, n, o - 1)]
        return super().cond_facts(v, truth, depth)

    def intrinsic(self, n):
        out = super().intrinsic(n)
        if n[0] in ('entry', 'post', 'clob', 'cphi') and n[-1][1] and n[-1][1][-1] == '#':
            out.append((Z, n, 0))
        elif n[0] == 'a' and uns(self.f.ptypes[n[1]]):
            out.append((Z, n, 0))
        elif n[0] in ('entry', 'post') and n[-1][2] and uns(self.ftype(n[-1])):
            out.append((Z, n, 0))
        elif n[0] == 'v' and nonneg(self.f, ('i', n[1])):
            out.append((Z, n, 0))
        return out

    def ftype(self, c):
        for m in (self.prog.types.get(c[2]) or {}).get('members', ()):
            if m[0] == 'field' and m[1] == c[1][-1]:
                return m[4]
        return ''


def uns(t):
    t = t.replace('const', '').strip().split('::')[-1]
    return t.startswith(('unsigned', 'size_t', 'uint')) and '*' not in t and '[' not in t


class Prover(bounds.Prover):
    def on(self, f):
        if 'b14' not in f._cache or f._cache['b14'].P is not self:
            f._cache['b14'] = Fn(self, f)
        return f._cache['b14']


at = c11.at


def fixed(p):
    """{(class, field): number} for fields that are set once, to one number, when the object is made"""
    if not hasattr(p, '_fixed'):
        val = {}
        for f in p.repo_fns(lambda f: True):
            for i in f.all():
                if i.op == 'store':
                    k = mod.fieldkey(f, i.o[1])
                    if k[0] == 'f':
                        made = f.cls == k[1] and f.bname == f.cls.split('::')[-1]
                        val.setdefault(k[1:], set()).add(int(i.o[0][1]) if made and i.o[0][0] == 'k' else None)
        p._fixed = {}
        text = {}
        for d, ds, fs in os.walk(build.REPO):
            ds[:] = [x for x in ds if not x.startswith(('.', 'build')) and 'test' not in x]
            for x in fs:
                if x.endswith('.h'):
                    with open(os.path.join(d, x), errors='replace') as fh:
                        for m in re.finditer(r'\bconst\s+[\w: ]+\s(\w+)\s*(?:=\s*|\{\s*)(\d+|0x[\da-fA-F]+)[uUlL]*\s*\}?;', fh.read()):
                            text.setdefault(m.group(1), set()).add(int(m.group(2), 0))
        # objects of classes that nothing here makes: the number in the class definition
        for c, t in p.types.items():
            for m in t.get('members', ()):
                if m[0] == 'field' and m[4].startswith('const ') and (c, m[1]) not in val and len(text.get(m[1], ())) == 1:
                    val[(c, m[1])] = text[m[1]]
        for (c, n), vs in val.items():
            if len(vs) == 1 and None not in vs:
                for m in (p.types.get(c) or {}).get('members', ()):
                    if m[0] == 'field' and m[1] == n and m[4].startswith('const '):
                        p._fixed[(c, n)] = list(vs)[0]
    return p._fixed


def entry_facts(fp, n):
    out = list(c11.entry_facts(fp, n))
    c = n[-1]
    k = fixed(fp.prog).get((c[2], c[1][-1] if c[1] else None))
    if k is not None:
        out += [(Z, n, -k), (n, Z, k)]
    for cls, a, b in ORDERED:
        if ofclass(c[2], cls):
            for me in (a, b):
                if c[1][-len(me):] == me and (n[0] == 'entry' or n[0] == 'post' and all(
                        fp.writes(fp.f.insts[n[1]], atpath(n, me, x)[-1]) is not None for x in (a, b))):
                    out.append((atpath(n, me, a), atpath(n, me, b), 0))
    if c[0][0] == 'v' and c[1] == ('track_number_',):
        # queued frames
        l = fp.f.insts[c[0][1]]
        if l.op == 'load':
            q = fp.T.split(l.o[0])[0]
            if q[0] == 'i' and fp.f.inst(q).op == 'load' and mod.fieldkey(fp.f, fp.f.inst(q).o[0]) == ('f', M + 'Segment', 'frames_'):
                out += [(Z, n, -1), (n, Z, 126)]
    for cls, nm, k in CAPS:
        if c[2] == cls and c[1][-1:] == (nm,):
            out.append((n, Z, k))
    if n[0] == 'post':
        i = fp.f.insts[n[1]]
        # a reader never reports more than it was asked for
        nm = fp.prog.callee_name(i) or ''
        if not nm and i.op in ('call', 'invoke'):
            ts = fp.prog.targets(i)
            if ts and all(t.bname in ('Read', 'Skip') and t.cls and (t.cls == 'webm::Reader' or 'webm::Reader' in fp.prog.all_bases(t.cls)) for t in ts):
                nm = 'webm::Reader::Read'
        if nm.startswith('webm::') and nm.split('::')[-1] in ('Read', 'Skip') and c[0][0] == 'loc':
            b = fp.T.split(i.o[-1])[0]
            if b == ('i', c[0][1]):
                a, o = fp.node(i.o[1])
                out += [(n, a, o), (Z, n, 0)]
    return out


def contract(f):
    """[(pointer parameter, length parameter)] of a function that gets a buffer"""
    out = []
    pt = getattr(f, 'ptypes', None)
    if not pt or not f.repo:
        return out
    for k, t in enumerate(pt):
        e = re.sub(r'\b(const|volatile|restrict|__restrict)\b', '', t).strip()
        e = re.sub(r'\s+', ' ', e)
        if not e.endswith('*'):
            continue
        e = e[:-1].strip()
        if e not in ('void', 'char', 'unsigned char', 'signed char', 'uint8_t', 'uint8', 'std::uint8_t', 'mkvmuxer::uint8', 'byte'):
            continue
        if f.bname == 'Read' and k >= 1 and isint(pt[k - 1]):
            out.append((k, k - 1))
        elif k + 1 < len(pt) and isint(pt[k + 1]):
            out.append((k, k + 1))
    return out


def isint(t):
    t = re.sub(r'\b(const)\b', '', t).strip()
    t = t.split('::')[-1]
    return bool(INT.match(t)) or bool(re.match(r'^u?int(8|16|32|64)(_t)?$', t)) or t in ('size_t', 'long long', 'unsigned long long')


class Ext:
    """is an index (in units of `scale` bytes) inside what a pointer leads to?"""

    def __init__(self, fp, used=None, strict=False):
        self.fp, self.f, self.p = fp, fp.f, fp.prog
        self.strict = strict        # a null pointer has no bytes
        self.used = used if used is not None else set()

    def ended(self, n, ix, b, extra):
        """pointer + index was found below the end of a buffer"""
        fp = self.fp
        for t in list(fp.facts(b)) + list(extra):
            if t[0] != 'ne' and t[0][0] == 'gep' and t[0][3] == 1 and t[0][1] == (n, 0) and t[0][2][0] == ix[0] and \
                    ix[1] - t[0][2][1] + t[2] <= -1:
                e = t[1]
                if e[0] == 'gep' and e[3] == 1 and self.below(e[1], (e[2][0], e[2][1] - 1), 1, b, extra, (), 8) is True:
                    return True
        return False

    def lim(self, idx, lim, b, extra):
        fp = self.fp
        if fp.prove(idx, lim, -1, b, extra):
            return True
        u = self.upper(idx[0], b, extra)
        if u != idx[0] and fp.prove((u, idx[1]), lim, -1, b, extra):
            return True
        return self.split(idx, lim, b)

    def upper(self, n, b, extra):
        """drop what is subtracted"""
        if n[0] == '+':
            a, c = self.upper(n[1], b, extra), self.upper(n[2], b, extra)
            return plus(a, c)
        if n[0] == '-' and self.fp.prove((Z, 0), (n[2], 0), 0, b, extra):
            return self.upper(n[1], b, extra)
        return n

    def split(self, idx, lim, b):
        """decide at the nearest merge above, one way in at a time"""
        fp, f = self.fp, self.f
        x = b
        d = f.idom()
        while True:
            ps = [q for q in f.preds()[x] if q in d]
            if len(ps) != 1:
                break
            x = ps[0]
        if len(ps) < 2 or any(f.dominates(x, q) for q in ps):
            return False
        for n in (idx[0], lim[0]):
            w = fp.where(n)
            if w is not None and (w == x or not f.dominates(w, x)):
                return False
        return all(fp.prove(idx, lim, -1, q, fp.edge_facts(q, x)) for q in ps)

    def below(self, ptr, idx, scale, b, extra=(), seen=(), depth=0):
        """True / False / None (pointer not understood); idx and the pointer are (node, offset), offset in bytes"""
        fp = self.fp
        n, o = ptr
        if depth > 12:
            return None
        if n == Z:
            if self.strict and o == 0:
                return fp.prove(idx, (Z, 0), -1, b, extra) or self.split(idx, (Z, 0), b)
            return True if o == 0 else None
        if n[0] == '&':
            if o:
                return None
            n, o = n[1], n[2]
        if o % scale:
            return None
        ix = (idx[0], idx[1] + o // scale)
        if n[0] == 'gep':
            if n[3] != 1 or scale != 1:
                return None
            j, jo = n[2]
            ix = (ix[0], ix[1] + jo)
            if j != Z:
                ix = (j if ix[0] == Z else plus(ix[0], j), ix[1])
            return self.below(n[1], ix, scale, b, extra, seen, depth + 1)
        if n[0] in ('v', 'entry', 'post', 'clob', 'cphi') and isnull(list(fp.facts(b)) + list(extra), n):
            if not self.strict or fp.prove(idx, (Z, 0), -1, b, extra):
                return True
        if n[0] == 'a':
            for k, l in contract(self.f):
                if k == n[1] and scale == 1:
                    if self.ended(n, ix, b, extra):
                        return True
                    self.used.add((self.f.name, k, l))
                    return self.lim(ix, fp.node(('a', l)), b, extra)
            return True if self.ended(n, ix, b, extra) else None
        if n[0] in ('entry', 'post', 'clob'):
            c = n[-1]
            if n[0] == 'clob':
                return None
            ln = BYPTR.get((c[2], c[1][-1] if c[1] else None))
            if ln is None:
                return None
            if scale != 1:
                return None
            if n[0] == 'post' and any(fp.writes(self.f.insts[n[1]], (c[0], c[1][:-1] + (x,), c[2])) is None for x in ln):
                return None
            return any(self.lim(ix, (at(n, x), 0), b, extra) for x in ln)
        B = fp.phi_block(n)
        if B is not None:
            key = (n, ix)
            if key in seen:
                return True
            ins = fp.phi_in(n, B)
            ixs = fp.phi_in(ix[0], B)
            w = fp.where(ix[0])
            keep = ixs is None and w is not None and (w == B or not self.f.dominates(w, B))
            nn = any(t[0] == 'ne' and {t[1], t[2]} == {n, Z} and t[3] == 0 for t in list(fp.facts(b)) + list(extra))
            for pb, (m, mo) in ins.items():
                if pb not in self.f.idom() or nn and m == Z and mo == 0:
                    continue
                if keep:
                    r = self.below((m, mo), ix, scale, b, list(extra) + fp.edge_facts(pb, B), seen + (key,), depth + 1)
                else:
                    i2 = (ixs[pb][0], ixs[pb][1] + ix[1]) if ixs else ix
                    st = c11.Len(fp).stable(list(fp.facts(b)) + list(extra), B) if not ixs else []
                    r = self.below((m, mo), i2, scale, pb, fp.edge_facts(pb, B) + st, seen + (key,), depth + 1)
                if r is not True:
                    # a pointer that walks through the elements is not followed
                    return None if any(walks(m, n) for m, _ in ins.values()) else r
            return True
        if n[0] == 'v':
            i = self.f.insts[n[1]]
            if i.op == 'select':
                for arm, truth in ((i.o[1], True), (i.o[2], False)):
                    r = self.below(fp.node(arm), ix, scale, b, list(extra) + fp.cond_facts(i.o[0], truth), seen, depth + 1)
                    if r is not True:
                        return r
                return True
            if i.op == 'alloca':
                if i.asz is None:
                    return None
                return self.lim(ix, (Z, i.asz // scale), b, extra)
            if i.op in ('call', 'invoke'):
                s = c11.size_of(fp, i)
                if s is not None:
                    es = elem(self.p, fp, i)
                    if es is None or scale > es:
                        return None
                    return self.lim(ix, s, b, extra)
                s = stdname(self.p, i)
                if s in ('operator[]', 'data', 'front', 'c_str') and i.o:
                    c = fp.szcell(i.o[0])
                    if c is None:
                        return None
                    # how many elements there are when the address is used
                    k, ko = fp.node(i.o[1]) if s == 'operator[]' else (Z, 0)
                    sn, so = fp.version(c, i.bb, i.idx)
                    if k == Z:
                        return self.lim((ix[0], ix[1] + ko), (sn, so), b, extra)
                    j = ix if ix[0] != Z else None
                    if j is None:
                        return self.lim((k, ko + ix[1]), (sn, so), b, extra)
                    # index + k < size
                    if ix[0] == k:
                        return None
                    if ix[0][0] == '-' and ix[0][2] == k:
                        return self.lim((ix[0][1], ix[1] + ko), (sn, so), b, extra)
                    return self.lim((('+',) + tuple(sorted((ix[0], k), key=str)), ix[1] + ko), (sn, so), b, extra) or \
                        self.lim(ix, (('-', sn, k), so - ko), b, extra)
                return None
        if n[0] == 'g':
            g = self.p.globals.get(n[1])
            if g is None or not g.get('size'):
                return None
            return self.lim(ix, (Z, g['size'] // scale), b, extra)
        return None


def walks(m, n):
    while m[0] in ('&', 'gep'):
        m = m[1] if m[0] == '&' else m[1][0]
        if m == n:
            return True
    return False


def objpath(fp, v, cls):
    """(base, field path) of an object of the class at an address"""
    f, T = fp.f, fp.T
    b, off, var = T.split(v)
    if var:
        return None
    t = None
    if b[0] == 'i' and f.inst(b).op == 'alloca':
        t = f.inst(b).vty and f.prog.strip(f.inst(b).vty)
    elif b[0] in ('i', 'a'):
        vt = T.vtype(b)
        t = f.prog.pointee(vt) if vt else None
    if t == cls and off == 0 or t not in f.prog.types:
        return (fp.base(b), ()) if off == 0 else None
    names = []
    for _ in range(6):
        if t == cls and off == 0:
            return (fp.base(b), tuple(names))
        r = f.prog.field_at(t, off)
        if not r:
            return (fp.base(b), ()) if not names and off == 0 else None
        m, off, own_ = r
        names.append(m[1])
        t = m[4]
    return None


def plus(a, b):
    if a == Z or b == Z:
        return b if a == Z else a
    return ('+',) + tuple(sorted((a, b), key=str))


def isnull(facts, n):
    return any(t[0] == n and t[1] == Z and t[2] <= 0 for t in facts) and any(t[0] == Z and t[1] == n and t[2] <= 0 for t in facts)


def elem(p, fp, al):
    nm = p.callee_name(al)
    m = re.search(r'SafeArrayAlloc<(.*)>$', nm)
    if m:
        t = m.group(1)
        return 8 if t.endswith('*') else SIZED.get(t, (p.types.get(t) or {}).get('size'))
    v = al.o[0]
    f = fp.f
    for _ in range(10):
        while v[0] == 'i' and f.inst(v).op in ('zext', 'sext', 'freeze', 'trunc', 'extractvalue'):
            v = f.inst(v).o[0]
        if v[0] != 'i':
            return 1
        i = f.inst(v)
        if i.op == 'select' and (i.o[1][0] == 'k' or i.o[2][0] == 'k'):
            v = i.o[2] if i.o[1][0] == 'k' else i.o[1]
        elif i.op in ('call', 'invoke') and 'uadd.with.overflow' in (i.callee or ''):
            v = i.o[0]
        elif i.op in ('call', 'invoke') and 'umul.with.overflow' in (i.callee or ''):
            k = i.o[1] if i.o[1][0] == 'k' else i.o[0]
            return int(k[1]) if k[0] == 'k' else 1
        elif i.op in ('mul', 'shl') and i.o[1][0] == 'k':
            return int(i.o[1][1]) if i.op == 'mul' else 1 << int(i.o[1][1])
        else:
            return 1
    return 1


def unsigned(f, v):
    return v[0] == 'i' and f.inst(v).op == 'zext'


class Check:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.prog
        self.P = Prover(self.p, entry_facts, self.post)
        self.used = set()
        self.gmemo = {}

    def post(self, fp, call, how):
        """what a call guarantees when it reports success"""
        out = []
        if how not in ('true', 'nonzero'):
            return out
        for g in self.p.targets(call):
            if not g.repo or g.decl or not call.o or len(self.p.targets(call)) != 1:
                continue
            for kind, k, path, cls, lo, hi in self.gives(g):
                if kind in ('room', 'roomf'):
                    if kind == 'room':
                        cell = fp.szcell(call.o[k])
                    else:
                        at0 = objpath(fp, call.o[0], path[2])
                        cell = at0 and (at0[0], at0[1] + path[1], path[2])
                    if cell is not None:
                        n, o = fp.version(cell, call.bb, call.idx + 1)
                        a, ao = fp.node(call.o[cls])
                        out.append((a, n, o - ao))
                    continue
                top = cls
                for tc, pa, cl in ROOMY:
                    if kind == 'atleast' and pa == path:
                        top = tc
                at0, atk = objpath(fp, call.o[0], top), objpath(fp, call.o[k], cls) if kind != 'atleast' else ((), ())
                if atk is None or kind != 'range' and at0 is None:
                    continue
                if kind == 'range':
                    n, o = fp.version((atk[0], atk[1] + path, cls), call.bb, call.idx + 1)
                    out += [(Z, n, o - lo), (n, Z, hi - o)]
                elif kind == 'atleast':
                    n, o = fp.version((at0[0], at0[1] + path, cls), call.bb, call.idx + 1)
                    a, ao = fp.node(call.o[k])
                    out.append((a, n, o - ao))
                elif kind == 'same':
                    n, o = fp.version((at0[0], at0[1] + path, cls), call.bb, call.idx + 1)
                    m, mo = fp.version((atk[0], atk[1] + path, cls), call.bb, call.idx + 1)
                    out += [(n, m, mo - o), (m, n, o - mo)]
        return out

    def gives(self, g):
        if g.name in self.gmemo:
            return self.gmemo[g.name]
        self.gmemo[g.name] = []
        out = []
        if g.ret in ('bool',):
            fp = self.P.on(g)
            ways = None
            for k, t in enumerate(g.ptypes):
                t2 = re.sub(r'\bconst\b', '', t).replace('*', '').replace('&', '').strip()
                for cls, path, lo, hi in RANGED:
                    if t2 == cls and t.endswith(('*', '&')):
                        ways = ways if ways is not None else self.ways(fp)
                        if ways and all(self.between(fp, (('a', k), path, cls), lo, hi, w) for w in ways):
                            out.append(('range', k, path, cls, lo, hi))
                    if k and t2 == cls == g.cls and t.startswith('const '):
                        ways = ways if ways is not None else self.ways(fp)
                        if ways and all(self.equal(fp, (('a', 0), path, cls), (('a', k), path, cls), w) for w in ways):
                            out.append(('same', k, path, cls, 0, 0))
            for k, t in enumerate(g.ptypes):
                # containers that hold as many elements as asked for
                cells = []
                if re.match(r'^std::(__cxx11::)?(vector|basic_string)<.*> ?[*&]$', t):
                    cells.append(('room', k, (('a', k), ('#',), None)))
                elif k == 0 and g.cls and not t.startswith('const '):
                    for m in (self.p.types.get(g.cls) or {}).get('members', ()):
                        if m[0] == 'field' and re.match(r'^std::(__cxx11::)?(vector|basic_string)<', m[4]):
                            cells.append(('roomf', k, (('a', 0), (m[1], '#'), g.cls)))
                for kind, k, cell in cells:
                    if not any(fp.writes(x, cell) is not None for x in g.all() if x.op in ('call', 'invoke')):
                        continue
                    for j in range(1, len(g.ptypes)):
                        if isint(g.ptypes[j]):
                            ways = ways if ways is not None else self.ways(fp)
                            if ways and all(self.least(fp, cell, j, w) for w in ways):
                                out.append((kind, k, cell, j, 0, 0))
            for top, path, cls in ROOMY:
                if g.cls == top:
                    for k in range(1, len(g.ptypes)):
                        if isint(g.ptypes[k]):
                            ways = ways if ways is not None else self.ways(fp)
                            if ways and all(self.least(fp, (('a', 0), path, cls), k, w) for w in ways):
                                out.append(('atleast', k, path, cls, 0, 0))
        self.gmemo[g.name] = out
        return out

    def ways(self, fp):
        out = []
        for r in fp.f.rets():
            if not r.o:
                return []
            out += [(r,) + w for w in c11.success(fp, r.o[0], r.bb)]
        return out

    def between(self, fp, cell, lo, hi, w):
        r, b, ch, ex = w
        n = fp.version(cell, r.bb, r.idx)
        return c11.at_edge(fp, (Z, 0), n, -lo, b, ch, ex) and c11.at_edge(fp, n, (Z, 0), hi, b, ch, ex)

    def equal(self, fp, c, d, w):
        r, b, ch, ex = w
        n, m = fp.version(c, r.bb, r.idx), fp.version(d, r.bb, r.idx)
        return c11.at_edge(fp, n, m, 0, b, ch, ex) and c11.at_edge(fp, m, n, 0, b, ch, ex)

    def least(self, fp, cell, k, w):
        r, b, ch, ex = w
        n = fp.version(cell, r.bb, r.idx)
        return c11.at_edge(fp, fp.node(('a', k)), n, 0, b, ch, ex)

    def run_of(self, f, i, ptr, ln, what='call'):
        fp = self.P.on(f)
        if ln is None:
            return None
        if ln[0] == 'strlen':
            idx = (('strlen', fp.node(ln[1])[0]), 0)
        else:
            n, o = fp.node(ln[0])
            idx = (n, o + ln[1] - 1)
        pn = fp.node(ptr)
        if ln[0] != 'strlen' and n[0] == '*' and o + ln[1] == 0:
            # a number of elements of the same size
            return Ext(fp, self.used).below(pn, (n[1], n[2] - 1), n[3], i.bb)
        # inside an array member or a local object
        T = ir.terms(f)
        m = T.member(ptr)
        if m[2] and m[3]:
            mm = re.match(r'^(.*)\[(\d+)\]$', m[3])
            if mm and not m[4]:
                sz = self.fsize(m[2], m[1][-1])
                return fp.prove(idx, (Z, sz), -1, i.bb) if sz else None
        r = Ext(fp, self.used).below(pn, idx, 1, i.bb)
        if r is not True and what in ('copy from', 'fwrite', 'memcmp', 'call'):
            # a text is read up to its end
            for c in f.all():
                if c.op in ('call', 'invoke') and c.callee == 'strlen' and fp.node(c.o[0]) == pn and \
                        (f.dominates(c.bb, i.bb) if c.bb != i.bb else c.idx < i.idx) and fp.prove(idx, fp.node(('i', c.id)), 0, i.bb):
                    return True
        return r

    def fsize(self, cls, name):
        for m in (self.p.types.get(cls) or {}).get('members', ()):
            if m[0] == 'field' and m[1] == name:
                return m[3]
        return None

    # ------------------------------------------------------ (A) indexed accesses
    def access(self, f, i, addr, sz):
        """(verdict, low, what) of an indexed access, None when it has no variable index"""
        T = ir.terms(f)
        base, K, var = T.split(addr)
        if not var:
            return None
        fp = self.P.on(f)
        if len(var) != 1:
            return (None, True, 'two indexes')
        x, scale = var[0]
        scale = abs(scale) if isinstance(scale, int) else scale
        if c11.cookie(f, x):
            return None
        idx = fp.node(x)
        b, names, owner, ft, v2 = T.member(addr)
        # array inside an object
        arr = None
        if owner:
            arr = self.member_array(f, addr, base, K, scale)
        if arr is not None:
            cnt, rest, nm = arr
            ix = (idx[0], idx[1] + rest // scale)
            ok = fp.prove(ix, (Z, cnt), -1, i.bb)
            return (ok, self.low(fp, f, x, ix, i.bb), nm)
        ptr = fp.node(base)
        if ptr[0][0] in ('entry', 'post', 'cphi', 'clob'):
            c = ptr[0][-1]
            if (c[2], c[1][-1] if c[1] else None) in C11ARR:
                return None
        q = K // scale
        if K - q * scale + sz > scale:
            return (None, True, 'partial')
        ix = (idx[0], idx[1] + q)
        r = Ext(fp, self.used).below(ptr, ix, scale, i.bb)
        return (r, self.low(fp, f, x, ix, i.bb), ir.show(T.term(base))[:40] if base[0] != 'g' else base[1])

    def low(self, fp, f, x, ix, b):
        return nonneg(f, x) and ix[1] >= fp.node(x)[1] or fp.prove((Z, 0), ix, 0, b)

    def member_array(self, f, addr, base, K, scale):
        T = ir.terms(f)
        # walk down to the gep that has the variable part
        v = addr
        post = 0
        while v[0] == 'i':
            i = f.inst(v)
            if i.op == 'getelementptr' and i.voff is not None and i.off is None:
                pre = i.o[0]
                coff = i.coff
                break
            if i.op == 'getelementptr' and i.off is not None:
                post += i.off
                v = i.o[0]
            elif i.op in ('bitcast', 'addrspacecast'):
                v = i.o[0]
            else:
                return None
        else:
            return None
        b, names, owner, ft, var = T.member(pre)
        if not owner or not ft:
            return None
        m = re.match(r'^(.*)\[(\d+)\]$', ft)
        if not m:
            return None
        return int(m.group(2)), coff + post - (coff + post) % scale, names[-1]


def nonneg(f, v, seen=(), depth=0):
    """values that are never negative by their type or by induction"""
    if depth > 12:
        return False
    if v in seen:
        return True
    if v[0] == 'k':
        return int(v[1]) >= 0
    if v[0] == 'a':
        return uns(f.ptypes[v[1]])
    if v[0] != 'i':
        return False
    i = f.inst(v)
    if i.op in ('zext', 'lshr', 'udiv', 'urem'):
        return True
    if i.op in ('sext', 'trunc', 'freeze'):
        return nonneg(f, i.o[0], seen, depth + 1)
    if i.op in ('call', 'invoke') and (i.callee == 'strlen' or stdname(f.prog, i) in ('size', 'length')):
        return True
    if i.op == 'and':
        return any(x[0] == 'k' and int(x[1]) >= 0 for x in i.o) or all(nonneg(f, x, seen, depth + 1) for x in i.o)
    if i.op == 'phi':
        return all(nonneg(f, x, seen + (v,), depth + 1) for x, _ in i.phi)
    if i.op == 'select':
        return all(nonneg(f, x, seen, depth + 1) for x in i.o[1:])
    if i.op in ('add', 'mul', 'or'):
        return all(nonneg(f, x, seen, depth + 1) for x in i.o)
    if i.op in ('ashr', 'sdiv', 'shl') and i.o[1][0] == 'k':
        return nonneg(f, i.o[0], seen, depth + 1)
    return False


def transfers(p, f, i):
    """[(pointer operand, length: operand or (operand, +k), what)] of a call that moves a run of bytes"""
    c = i.callee or ''
    o = i.o
    if c.startswith(('llvm.memcpy', 'llvm.memmove')) or c in ('memcpy', 'memmove'):
        return [(o[0], (o[2], 0), 'copy to'), (o[1], (o[2], 0), 'copy from')]
    if c.startswith('llvm.memset') or c == 'memset':
        return [(o[0], (o[2], 0), 'fill')]
    if c in ('fread', 'fwrite'):
        if o[1][0] == 'k' and int(o[1][1]) == 1:
            return [(o[0], (o[2], 0), c)]
        if o[2][0] == 'k' and int(o[2][1]) == 1:
            return [(o[0], (o[1], 0), c)]
        return [(o[0], None, c)]
    if c in ('snprintf', 'vsnprintf', 'strncpy'):
        return [(o[0], (o[2] if c == 'strncpy' else o[1], 0), c)]
    if c == 'memcmp':
        return [(o[0], (o[2], 0), c), (o[1], (o[2], 0), c)]
    if c == 'strcpy':
        return [(o[0], ('strlen', o[1]), c)]
    if c in ('strcat', 'sprintf', 'vsprintf', 'gets'):
        return [(o[0], None, c)]
    return []


# places this analysis cannot decide: what (function or class, thing), and why
OPEN = {
    ('libwebm::Webm2Pes::WritePesPacket', 'libwebm::CopyAndEscapeStartCodes'):
        'the payload is cut up by a loop whose running total is not followed',
    ('libwebm::VpxPes2Ts::ReceivePacket', '*element'): 'the packetizing loop is not followed',
    ('libwebm::TsHeader::Write', '*element'): 'the size of the buffer is a precondition of this internal function',
    ('libwebm::VpxPesParser::ReadStreamId', 'pes_file_data_'): 'guarded through a narrowed difference',
    ('libwebm::VpxPesParser::ReadPacketLength', 'pes_file_data_'): 'guarded through a narrowed difference',
    ('libwebm::VpxPesParser::ParsePesHeader', 'pes_file_data_'): 'three bytes are read through a second running index',
    ('libwebm::VpxPesParser::ParsePesOptionalHeader', '*element[+]'): 'the stuffing loop has two counters',
    ('libwebm::VpxPesParser::RemoveStartCodeEmulationPreventionBytes', 'pes_file_data_'): 'callers have data',
    ('libwebm::Webm2Pes::ConvertToFile', 'packet_data_'): 'a packet that was written is never empty',
}
OPENCLS = {
    ('webm::BasicBlockParser', 'lace_sizes_'): 'a first size has been stored when the parser is in this state',
    ('libwebvtt::Parser', '*element'): 'the terminating zero of the line stops the scan',
}


def isopen(f, *names):
    for n in names:
        w = OPEN.get((f.clean, n))
        if w:
            return w
        for (c, m), w in OPENCLS.items():
            if m == n and f.clean.startswith(c):
                return w
    return None


def contname(f, v):
    t = ir.show(ir.terms(f).term(v))
    return t.replace('&', '').replace('this.', '').split('.')[-1] if len(t) < 60 else 'container'


def run(ctx):
    p = ctx.prog
    ctx.rule('Every access through a pointer with a computed index, every run of bytes copied, filled, compared, read or '
             'written, and every element of a standard container is proved to lie inside the object it belongs to (array '
             'member, local array, allocation, the length passed or kept next to the pointer, the size of the container), '
             'from the branch conditions, definitions and field versions that hold there; every function that sets a '
             'pointer or its length leaves the length within what the pointer leads to.')
    ctx.assume('integers do not wrap, except where a difference of unsigned numbers is compared')
    ctx.assume('callers of the public interface pass buffers that are as long as they say')
    ctx.assume('user readers report no more bytes than asked for (the class contract)')
    ck = Check(ctx)
    n = {k: 0 for k in ('index', 'run', 'element', 'pair', 'call', 'other')}
    und = []

    def judge(kind, r, key, loc, msg, why=None):
        n[kind] += 1
        ctx.oblig(n=1)
        if why or r is None:
            und.append('%s: %s' % (loc, why or msg + ' (not understood)'))
        elif r is False:
            ctx.report(key, loc, msg)

    for f in p.repo_fns(scope):
        fp = None
        for i in f.all():
            if i.op in ('load', 'store'):
                a = i.o[0] if i.op == 'load' else i.o[1]
                r = ck.access(f, i, a, i.sz)
                if r is None:
                    continue
                v, low, what = r
                why = isopen(f, what)
                judge('index', v, '%s:%s' % (f.clean, what), i.loc, '%s: index into %s is not shown to be inside it' % (f.clean, what), why)
                if v is True and not low and not why:
                    ctx.report('%s:%s:neg' % (f.clean, what), i.loc, '%s: index into %s is not shown to be non-negative' % (f.clean, what))
            elif i.op in ('call', 'invoke'):
                for ptr, ln, what in transfers(p, f, i):
                    r = ck.run_of(f, i, ptr, ln, what)
                    const = ln is not None and ln[0] != 'strlen' and ln[0][0] == 'k'
                    if const and r is None:
                        continue
                    t = ir.show(ir.terms(f).term(ptr))[:60]
                    judge('run', r, '%s:%s' % (f.clean, what), i.loc, '%s: %s %s is not shown to stay inside it' % (f.clean, what, t),
                          isopen(f, what))
                s = stdname(p, i)
                if s in ('operator[]', 'front', 'back', 'pop_back') and i.o:
                    nm = p.callee_name(i)
                    if 'std::array<' in nm:
                        continue
                    fp = fp or ck.P.on(f)
                    c = fp.szcell(i.o[0])
                    if c is None:
                        und.append('%s: container not understood' % i.loc)
                        continue
                    try:
                        sz = fp.version(c, i.bb, i.idx)
                    except IndexError:
                        continue
                    ix = fp.node(i.o[1]) if s == 'operator[]' else (Z, 0)
                    st = 'basic_string' in nm and s == 'operator[]'
                    ok = fp.prove(ix, sz, 0 if st else -1, i.bb) or Ext(fp, ck.used).split((ix[0], ix[1] - (1 if st else 0)), sz, i.bb)
                    if ok and s == 'operator[]':
                        ok = ck.low(fp, f, i.o[1], ix, i.bb)
                    cn = contname(f, i.o[0])
                    judge('element', bool(ok), '%s:%s' % (f.clean, cn), i.loc, '%s: element of %s is not shown to exist' % (f.clean, cn),
                          not ok and isopen(f, cn, '*element', '*element[+]' if ix[0][0] == '+' else cn) or None)
    # calls with a buffer and its length
    done = set()
    while ck.used - done:
        todo = ck.used - done
        done |= todo
        for f in p.repo_fns(scope):
            for i in f.calls():
                for g in p.targets(i):
                    for k, l in contract(g):
                        if (g.name, k, l) not in todo or k >= len(i.o) or l >= len(i.o):
                            continue
                        r = ck.run_of(f, i, i.o[k], (i.o[l], 0))
                        if r is None and i.o[l][0] == 'k':
                            continue
                        judge('call', r, '%s:%s' % (f.clean, g.clean), i.loc,
                              '%s: the buffer given to %s is not shown to hold the number of bytes given with it' % (f.clean, g.clean),
                              isopen(f, g.clean))
    for f in p.repo_fns(scope):
        for i in f.calls():
            for g in p.targets(i):
                if g.clean == M + 'Segment::QueueFrame':
                    fp = ck.P.on(f)
                    x = fp.version((fp.base(i.o[1]), ('track_number_',), M + 'Frame'), i.bb, i.idx)
                    judge('other', bool(fp.prove((Z, 0), x, -1, i.bb) and fp.prove(x, (Z, 0), 126, i.bb)), '%s:queue' % f.clean, i.loc,
                          '%s: a frame is queued whose track number may be outside 1..126' % f.clean)
        if f.bname.startswith('~'):
            continue
        fp = None
        for i in f.all():
            if i.op != 'store':
                continue
            k = mod.fieldkey(f, i.o[1])
            if k[0] != 'f':
                continue
            for cls, nm, mx in CAPS:
                if k == ('f', cls, nm):
                    fp = fp or ck.P.on(f)
                    judge('other', bool(fp.prove(fp.node(i.o[0]), (Z, 0), mx, i.bb)), '%s:%s' % (f.clean, nm), i.loc,
                          '%s: %s may come to exceed %d' % (f.clean, nm, mx))
            for cls, a, b in ORDERED:
                if not ofclass(k[1], cls) or k[2] not in (a[-1], b[-1]):
                    continue
                fp = fp or ck.P.on(f)
                c = fp.cell(i.o[1])
                if c is None:
                    continue
                me = a if k[2] == a[-1] else b
                ca, cb = ((c[0], c[1][:len(c[1]) - len(me)] + x, c[2]) for x in (a, b))
                ok = fp.prove(fp.version(ca, i.bb, i.idx + 1), fp.version(cb, i.bb, i.idx + 1), 0, i.bb) or \
                    f.rets() and all(fp.prove(fp.version(ca, r.bb, r.idx), fp.version(cb, r.bb, r.idx), 0, r.bb) for r in f.rets())
                judge('pair', bool(ok), '%s:%s' % (f.clean, a[-1]), i.loc,
                      '%s: %s may come to exceed %s' % (f.clean, '.'.join(a), '.'.join(b).replace('.#', '.size()')))
        # containers that get another size
        for cls, a, b in ORDERED:
            if b[-1] != '#' or not ofclass(f.cls, cls) or f.bname == f.cls.split('<')[0].split('::')[-1]:
                continue
            fp = fp or ck.P.on(f)
            ca, cb = (('a', 0), a, f.cls), (('a', 0), b, f.cls)
            ch = [i for i in f.all() if i.op in ('call', 'invoke') and stdname(p, i) not in (None, 'pop_back') and i.o and
                  fp.szcell(i.o[0]) == cb and fp.writes(i, cb) is not None]
            if ch:
                ok = all(fp.prove(fp.version(ca, r.bb, r.idx), fp.version(cb, r.bb, r.idx), 0, r.bb) for r in f.rets())
                judge('pair', bool(ok), '%s:%s' % (f.clean, a[-1]), ch[0].loc,
                      '%s: %s may come to exceed %s' % (f.clean, '.'.join(a), '.'.join(b).replace('.#', '.size()')))
        # pointer and length fields
        for cls, a, b in PAIRS:
            st = [i for i in f.all() if i.op == 'store' and mod.fieldkey(f, i.o[1]) in (('f', cls, a), ('f', cls, b)) or
                  i.op in ('call', 'invoke') and stdname(p, i) in ('up.reset',) and mod.fieldkey(f, i.o[0]) == ('f', cls, a)]
            if not st:
                continue
            fp = fp or ck.P.on(f)
            for bs in sorted({(c[0], c[1][:-1]) for c in (fp.cell(s.o[1] if s.op == 'store' else s.o[0]) for s in st) if c}, key=str):
                for r in f.rets():
                    pv = fp.version((bs[0], bs[1] + (a,), cls), r.bb, r.idx)
                    lv = fp.version((bs[0], bs[1] + (b,), cls), r.bb, r.idx)
                    v = Ext(fp, ck.used, True).below(pv, (lv[0], lv[1] - 1), 1, r.bb)
                    judge('pair', v, '%s:%s' % (f.clean, b), st[-1].loc,
                          '%s: %s may come to exceed what %s leads to' % (f.clean, b, a))
    ctx.undecided(sorted(set(und)))
    for k, m in MIN.items():
        ctx.need(k + ' obligations', n[k], m)


MIN = {'index': 60, 'run': 100, 'element': 60, 'pair': 25, 'call': 30}
