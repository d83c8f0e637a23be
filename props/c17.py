"""C17: what webm_parser reports and keeps as byte counts is what it consumed."""
import re

import acct
import ir
import mod
from acct import add, const, lin, ZERO

CNT = ('unsigned long*', 'unsigned long long*', 'unsigned long&')
# running totals: (class, member path) -> (sign, which events count)
TOTALS = {
    ('webm::MasterParser', 'total_bytes_read_'): (1, 'all'),
    ('webm::VirtualBlockParser', 'total_bytes_read_'): (1, 'all'),
    ('webm::BasicBlockParser', 'header_bytes_read_'): (1, 'noframe'),
    ('webm::IdParser', 'num_bytes_remaining_'): (-1, 'accum'),
    ('webm::VarIntParser', 'num_bytes_remaining_'): (-1, 'accum'),
    ('webm::IntParser', 'num_bytes_remaining_'): (-1, 'all'),
    ('webm::FloatParser', 'num_bytes_remaining_'): (-1, 'all'),
    ('webm::DateParser', 'num_bytes_remaining_'): (-1, 'all'),
    ('webm::IdElementParser', 'num_bytes_remaining_'): (-1, 'all'),
    ('webm::SkipParser', 'num_bytes_remaining_'): (-1, 'all'),
    ('webm::ByteParser', 'total_read_'): (1, 'all'),
    ('webm::BlockHeaderParser', 'timecode_bytes_remaining_'): (-1, 'accum'),
    ('webm::UnknownParser', 'bytes_remaining_'): (-1, 'all'),
    ('webm::VoidParser', 'bytes_remaining_'): (-1, 'all'),
    ('webm::MasterParser', 'child_metadata_.header_size'): (1, 'head'),
    ('webm::WebmParser::DocumentParser', 'child_metadata_.header_size'): (1, 'head'),
}
POSITIONS = {'webm::FileReader': 'position_', 'webm::BufferReader': 'pos_', 'webm::IstreamReader': 'position_'}


def strip_t(s):
    prev = None
    while prev != s:
        prev, s = s, re.sub(r'<[^<>]*>', '', s)
    return s


class Count(acct.Walk):
    def __init__(self, f, reader, cnt, down=False):
        self.reader, self.cnt, self.down = reader, cnt, down
        super().__init__(f)
        self.cls = strip_t(f.clean.rsplit('::', 1)[0])
        self.members = self._members()
        self.nevents = 0
        self.bad = []
        self.positions = set()

    def _members(self):
        """cell -> (name, sign, filter) of the running totals this function touches"""
        out = {}
        for i in self.f.all():
            a = i.o[0] if i.op == 'load' else i.o[1] if i.op == 'store' else None
            if a is None:
                continue
            b, off, var = self.T.split(a)
            if b != ('a', 0) or var:
                continue
            m = self.T.member(a)
            if not m[2] or not m[1]:
                continue
            own = strip_t(self.owner(m))
            path = '.'.join(n for n in m[1] if not n.startswith('+'))
            t = TOTALS.get((own, path)) or TOTALS.get((self.cls, path))
            if t:
                out[self.key(a)] = (path,) + t
        return out

    @staticmethod
    def owner(m):
        return m[2]

    # own members are only changed by this function: nested parsers are other objects
    def keep(self, k):
        if k[0] != 'A' or k[1] != 0:
            return False
        fk = self.field(k)
        if k in self.members:
            return True
        return bool(fk) and strip_t(fk[0]) == self.cls and not self.shared(fk)

    def shared(self, fk):
        """stored to by code of another class"""
        c = self.prog.__dict__.get('_c17_stores')
        if c is None:
            c = self.prog.__dict__['_c17_stores'] = {}
            for g in self.prog.repo_fns(lambda g: g.file.startswith('webm_parser/')):
                for k in mod.direct(g):
                    if k[0] == 'f':
                        c.setdefault(k[1:], set()).add(strip_t(g.clean.rsplit('::', 1)[0]))
        return bool(c.get(tuple(fk), set()) - {strip_t(fk[0])})

    def clobber(self, i, st, skip=()):
        skip = set(skip) | {k for k in st['mem'] if self.keep(k)}
        if self.cnt is not None and not any(v[0] == 'a' and v[1] == self.cnt for v in i.o):
            skip.add(('A', self.cnt, 0))
        super().clobber(i, st, skip)

    def init(self):
        st = super().init()
        st['X'] = ZERO
        st['M'] = {}
        st['open'] = ''
        for k in self.members:
            st['M'][k] = (lin((('m', k), 1)), ZERO)
            st['mem'][k] = lin((('m', k), 1))
        st['B'] = ZERO
        st['sized'] = False
        if self.cnt is not None:
            k = ('A', self.cnt, 0)
            st['mem'][k] = lin((('m', k), 1))
            if self.down:
                st['B'] = st['mem'][k]
        return st

    def copy(self, st):
        n = super().copy(st)
        n['M'] = dict(st['M'])
        return n

    def subst_extra(self, st, r):
        st['X'] = r(st['X'])
        st['B'] = r(st['B'])
        st['M'] = {k: (r(b), r(x)) for k, (b, x) in st['M'].items()}

    def extra_key(self, st, r):
        return (r(st['X']), r(st['B']), tuple((k, r(b), r(x)) for k, (b, x) in sorted(st['M'].items())), st['open'], st['sized'])

    def protected(self, k):
        return k in self.members or self.cnt is not None and k == ('A', self.cnt, 0)

    def consume(self, i, st, e, kind):
        self.nevents += 1
        st['X'] = add(st['X'], e)
        for k, (b, x) in st['M'].items():
            flt = self.members[k][2]
            if flt == 'all' or flt == 'noframe' and kind != 'frame' or flt == 'head' and kind == 'head' or \
                    flt == 'accum' and kind == 'accum':
                st['M'][k] = (b, add(x, e))
        if kind == 'head':
            if st['open'] == 'body' and any(m[2] == 'head' for m in self.members.values()):
                self.bad.append((i, 'starts to read the header of another element without resetting the header size'))
            st['open'] = 'head'
        elif kind == 'body':
            st['open'] = 'body'
        elif kind == 'frame':
            st['sized'] = False

    def stored(self, i, k, st, e):
        if k in self.members and self.members[k][2] == 'head' and acct.isconst(e) and st['open'] != 'head':
            st['M'][k] = (e, ZERO)           # a new child header starts here
            st['open'] = ''
        elif k in self.members and self.members[k][2] == 'head' and acct.isconst(e) and acct.cval(e):
            st['M'][k] = (e, ZERO)           # the documented 'unknown' value
        elif k in self.members and self.members[k][2] == 'accum' and not any(s in dict(e) for s in dict(st['mem'].get(k, ZERO)) if s != 1):
            st['M'][k] = (e, ZERO)           # length learned from the first byte
        if self.path(k) == 'frame_metadata_.size':
            st['sized'] = True
        if self.cls == 'webm::BasicBlockParser' and self.path(k) == 'frame_metadata_.position':
            cell = {self.path(c): c for c in self.cells()}

            def at(n):
                c = cell.get(n)
                return self.load(c, st, None) if c else lin((('missing', n), 1))
            first = ZERO
            for n in ('frame_metadata_.parent_element.position', 'frame_metadata_.parent_element.header_size',
                      'header_bytes_read_'):
                first = add(first, at(n))
            self.positions.add(i.id)
            if e != first and (st['sized'] or e != add(self.load(k, st, None), at('frame_metadata_.size'))):
                self.bad.append((i, 'sets the position of a frame to %s, which is neither the end of the block header '
                                 'nor the end of the frame before' % ir.show(self.T.term(i.o[0]))))

    def cells(self):
        if not hasattr(self, '_cells'):
            self._cells, self._path = set(), {}
            for i in self.f.all():
                a = i.o[0] if i.op == 'load' else i.o[1] if i.op == 'store' else None
                if a is not None and self.key(a)[:2] == ('A', 0):
                    m = self.T.member(a)
                    if m[1]:
                        self._cells.add(self.key(a))
                        self._path.setdefault(self.key(a), '.'.join(n for n in m[1] if not n.startswith('+')))
        return self._cells

    def path(self, k):
        self.cells()
        return self._path.get(k)

    def reads(self, i):
        """index of the reader argument if this call is handed our reader"""
        for n, v in enumerate(i.o):
            if v[0] == 'a' and v[1] == self.reader:
                return n
        return None

    def event(self, i, st):
        n = self.reads(i)
        if n is None:
            return None
        name = strip_t(self.prog.callee_name(i))
        last = name.rsplit('::', 1)[-1]
        if last in ('Position',):
            st['env'][i.id] = self.fresh(i, st)
            return [st]
        if last == 'ReadByte':
            out = []
            for r in (0, None):
                s = self.copy(st)
                self.clobber(i, s)
                if r == 0:
                    s['env'][i.id] = ZERO
                    self.consume(i, s, const(1), 'byte')
                else:
                    s['env'][i.id] = self.fresh(i, s)
                    s['fact'][s['env'][i.id]] = False
                out.append(s)
            return out
        # the count cell: last pointer argument
        cell = None
        for v in reversed(i.o):
            if v[0] in 'ia' and mod.isptr(self.f, v):
                cell = v
                break
        if cell is None or cell == i.o[n]:
            self.clobber(i, st)
            st['env'][i.id] = self.fresh(i, st)
            return [st]
        k = self.key(cell)
        rem = last.startswith('On') or name.endswith('Callback::Skip')
        old = self.load(k, st, None)
        keepk = set()
        self.clobber(i, st, keepk)
        st['gen'] += 1
        new = lin((('e', i.id, st['gen']), 1))
        st['mem'][k] = new
        kind = 'body'
        if last == 'OnFrame':
            kind = 'frame'
        elif last.startswith('AccumulateIntegerBytes'):
            kind = 'accum'
        elif name in ('webm::IdParser::Feed', 'webm::SizeParser::Feed', 'webm::VarIntParser::Feed'):
            kind = 'head'
        self.consume(i, st, add(old, new, -1) if rem else new, kind)
        # a member total that is itself the cell handed over
        st['env'][i.id] = self.fresh(i, st)
        return [st]

    def fold(self, st, b):
        super().fold(st, b)
        # what a counter and what it has to equal have in common is one opaque amount
        if self.cnt is None:
            st['X'] = ZERO
        else:
            k = ('A', self.cnt, 0)
            if st['mem'].get(k) == self.want(st) and st['mem'][k] and st['X']:
                st['mem'][k] = st['B'] = lin((('N', 'total'), 1))
                st['X'] = ZERO
            else:
                c, w = self.lost(st['mem'].get(k, ZERO), self.want(st), 'total')
                if c is not None:
                    st['mem'][k], st['B'], st['X'] = c, w, ZERO
        for k, (b0, x) in list(st['M'].items()):
            want = add(b0, x, self.members[k][1])
            if st['mem'].get(k) == want and x and want:
                st['mem'][k] = lin((('N', k), 1))
                st['M'][k] = (lin((('N', k), 1)), ZERO)
            else:
                c, w = self.lost(st['mem'].get(k, ZERO), want, k)
                if c is not None:
                    st['mem'][k], st['M'][k] = c, (w, ZERO)

    @staticmethod
    def lost(c, want, k):
        """more than one pending amount: the counter no longer follows what is consumed"""
        r = add(c, want, -1)
        if len(r) > 4 or any(abs(n) > (2 if s != 1 else 3) for s, n in r):
            n = lin((('N', k), 1))
            return add(n, lin((('lost', k), 1))), n
        if len(c) + len(want) > 10:
            n = lin((('N', k), 1))
            return add(n, r), n
        return None, None

    def want(self, st):
        return add(st['B'], st['X'], -1 if self.down else 1)


def text(e):
    def sym(k):
        if k == 1:
            return ''
        if k[0] == 'N':
            return 'what was read before'
        if k[0] == 'e':
            return 'bytes of call %%%d' % k[1]
        if k[0] == 'm':
            return 'old ' + str(k[1][-1] if k[1][0] == 'T' else 'value')
        return str(k[0])
    return ' + '.join('%s%s' % (c if c != 1 or k == 1 else '', (' ' if c != 1 and k != 1 else '') + sym(k)) for k, c in
                      sorted(e, key=str)) or '0'


def run(ctx):
    p = ctx.prog
    ctx.rule('Along every path of every parsing function: the byte count it reports to its caller equals the sum of the '
             'counts reported by everything it handed the reader to (reader, nested parser, callback), and each '
             'running total it keeps (bytes read, bytes remaining, header size) changes by exactly the bytes that '
             'belong to it; a reader moves its position by exactly the count it reports.')
    fns = p.repo_fns(lambda f: f.file.startswith('webm_parser/') and '/demo/' not in f.file and f.ret == 'webm::Status')
    nf = nm = nc = npos = 0
    seen_tot = set()
    for f in fns:
        rd = [n for n, t in enumerate(f.ptypes) if t == 'webm::Reader*']
        cn = [n for n, t in enumerate(f.ptypes) if t in CNT]
        last = f.clean.rsplit('::', 1)[-1]
        name = strip_t(f.clean)
        if last.startswith('ReadByte'):
            continue
        if rd and (cn or name.endswith('DocumentParser::Feed')):
            down = last.startswith('On') or name.endswith('Callback::Skip')
            w = Count(f, rd[0], cn[-1] if cn else None, down)
            bad = {}
            try:
                for ret, st in w.run():
                    nc += 1
                    if cn:
                        k = ('A', cn[-1], 0)
                        v = st['mem'][k]
                        if v != w.want(st):
                            bad.setdefault('count', (ret, 'leaves its byte count at %s where the bytes consumed make it %s' % (
                                text(v), text(w.want(st)))))
                    for k, (b, x) in st['M'].items():
                        seen_tot.add((w.cls, w.members[k][0]))
                        want = add(b, x, w.members[k][1])
                        if st['mem'].get(k) != want:
                            bad.setdefault(w.members[k][0], (ret, 'leaves %s at %s where the bytes consumed make it %s' % (
                                w.members[k][0], text(st['mem'].get(k, ZERO)), text(want))))
            except acct.TooMany:
                ctx.undecided(['%s: too many paths' % f.clean])
                ctx.oblig(True)
            for i, t in w.bad:
                bad.setdefault('frame position', (i, t))
            npos += len(w.positions)
            nf += 1
            nm += len(w.members)
            ctx.oblig(True, 1 + len(w.members) - len(bad))
            for what, (ret, t) in bad.items():
                ctx.oblig(False)
                ctx.report('%s:%s' % (name, what), '%s:%d' % (f.file, ret.ln or f.line), '%s %s' % (name, t))
    # readers
    for f in fns:
        c = strip_t(f.clean.rsplit('::', 1)[0])
        if c in POSITIONS and f.clean.rsplit('::', 1)[-1] in ('Read', 'Skip'):
            cn = [n for n, t in enumerate(f.ptypes) if t in CNT][-1]
            w = acct.Walk(f)
            pk = None
            for i in f.all():
                a = i.o[0] if i.op == 'load' else i.o[1] if i.op == 'store' else None
                if a is not None and w.key(a)[:2] == ('A', 0):
                    m = w.T.member(a)
                    if m[1] and m[1][-1] == POSITIONS[c]:
                        pk = w.key(a)
            ctx.need('position of ' + c, 1 if pk else 0, 1)
            bad = None
            Reader.pk, Reader.ck = pk, ('A', cn, 0)
            w = Reader(f)
            for ret, st in until(w.run()):
                nc += 1
                d = add(st['mem'].get(pk, lin((('m', pk), 1))), st['P'], -1)
                v = st['mem'].get(('A', cn, 0), lin((('m', ('A', cn, 0)), 1)))
                if c != 'webm::BufferReader' and v != add(st['R'], st['X']):
                    bad = (ret, 'reports %s bytes where %s were taken from the stream' % (text(v), text(add(st['R'], st['X']))))
                if add(d, v, -1) != ZERO:
                    bad = (ret, 'moves its position by %s and reports %s' % (text(d), text(v)))
            ctx.oblig(bad is None)
            ctx.count('reader operations')
            if bad:
                ctx.report('%s:position' % strip_t(f.clean), '%s:%d' % (f.file, bad[0].ln or f.line), strip_t(f.clean) + ' ' + bad[1])
    ctx.need('parsing functions', nf, 60)
    ctx.count('running totals', nm)
    ctx.need('frame positions', npos, 3)
    ctx.count('paths to a return', nc)
    ctx.assume('a parser is not its own child: nested parsers do not change the totals of the parser that feeds them')
    ctx.assume('one-byte reads either complete with one byte or consume nothing (the contract of the reader interface)')


def until(it):
    try:
        yield from it
    except acct.TooMany:
        return


class Reader(acct.Walk):
    """position and reported count of a reader: common growth is folded"""
    pk = ck = None

    def init(self):
        st = super().init()
        st['P'] = lin((('m', self.pk), 1))
        st['mem'][self.pk] = st['P']
        st['X'] = st['R'] = st['S'] = ZERO
        return st

    def extra_key(self, st, r):
        return r(st['P']), r(st['X']), r(st['R']), r(st['S'])

    def subst_extra(self, st, r):
        for k in 'PXRS':
            st[k] = r(st[k])

    def event(self, i, st):
        """what the C and C++ streams deliver"""
        name = self.prog.callee_name(i).rsplit('::', 1)[-1] if i.callee else ''
        if name in ('fread', 'gcount'):
            self.clobber(i, st)
            st['env'][i.id] = self.fresh(i, st)
            st['X'] = add(st['X'], st['env'][i.id])
            return [st]
        if name in ('fseeko', 'fseek') and i.o[2] == ('k', '1', 32):
            a, b = self.copy(st), self.copy(st)
            a['env'][i.id] = ZERO
            a['X'] = add(a['X'], self.val(i.o[1], a))
            b['env'][i.id] = self.fresh(i, b)
            b['fact'][b['env'][i.id]] = False
            return [a, b]
        if name == 'seekg' and i.o[2][0] == 'k' and i.o[2][1] == '1':
            self.clobber(i, st)
            st['S'] = self.val(i.o[1], st)
            st['env'][i.id] = self.fresh(i, st)
            return [st]
        if name == 'operator bool' and st['S']:
            a, b = self.copy(st), self.copy(st)
            for s, t in ((a, 1), (b, 0)):
                s['env'][i.id] = const(t)
                s['fact'].pop(('c', i.id), None)
                if t:
                    s['X'] = add(s['X'], s['S'])
                s['S'] = ZERO
            return [a, b]
        return None

    def fold(self, st, b):
        super().fold(st, b)
        d = add(st['mem'][self.pk], st['P'], -1)
        if self.ck in st['mem'] and d == st['mem'][self.ck] and not acct.isconst(d):
            n = lin((('N', 'n'), 1))
            if add(st['R'], st['X']) == d:
                st['X'], st['R'] = ZERO, n
            st['mem'][self.ck] = n
            st['mem'][self.pk] = add(st['P'], n)
        elif self.ck in st['mem'] and max(len(d), len(st['mem'][self.ck]), len(st['X'])) > 6:
            n = lin((('N', 'n'), 1))
            st['mem'][self.pk] = add(st['P'], n) if d == st['mem'][self.ck] else lin((('lost', 'pos'), 1))
            st['mem'][self.ck] = n
            st['X'], st['R'] = lin((('lost', 'x'), 1)), ZERO

    def protected(self, k):
        return k in (self.pk, self.ck)

    def clobber(self, i, st, skip=()):
        super().clobber(i, st, set(skip) | {self.pk})
