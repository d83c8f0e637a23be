"""C05: webm_parser's element tables (children, member, type, default, ancestry) match the WebM schema."""
import os
import re
import sys

import flow
import ir

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec'))
import schema  # noqa: E402

STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
VEC = r'std::vector<unsigned char, std::allocator<unsigned char> ?>'


def targs(s):
    """top-level template arguments of the last <...> group that closes the string"""
    i = s.index('<')
    d, cur, out = 0, '', []
    for ch in s[i:]:
        if ch == '<':
            d += 1
            if d == 1:
                continue
        if ch == '>':
            d -= 1
            if d == 0:
                break
        if ch == ',' and d == 1:
            out.append(cur.strip())
            cur = ''
            continue
        cur += ch
    out.append(cur.strip())
    return out


def kind_of(prog, parser):
    if re.match(r'webm::ByteParser<%s>' % STR, parser):
        return 'string'
    if re.match(r'webm::ByteParser<%s>' % VEC, parser):
        return 'binary'
    m = re.match(r'webm::IntParser<(.*)>$', parser)
    if m:
        t = m.group(1).strip()
        if t in ('long', 'long long', 'int'):
            return 'int'
        return 'uint'
    return {'webm::FloatParser': 'float', 'webm::BoolParser': 'bool', 'webm::DateParser': 'date',
            'webm::IdElementParser': 'id', 'webm::BasicBlockParser<webm::SimpleBlock>': 'simpleblock',
            'webm::BasicBlockParser<webm::Block>': 'block', 'webm::VirtualBlockParser': 'virtualblock',
            'webm::VoidParser': 'void'}.get(parser, 'master')


def registrations(prog, cls):
    """[(id, parser class, member, cardinality, inst)] registered by the constructors of a parser class"""
    out, odd = [], []
    short = cls.split('::')[-1]
    for f in prog.fn.values():
        if not f.repo or f.cls != cls or f.bname != short:
            continue
        # follow helpers of the constructor that return factories (inlined ones are already here)
        for c in f.calls():
            n = prog.callee_name(c)
            m = re.match(r'webm::(MasterValueParser<.*>|MasterParser)::MakeChild(<.*)$', n)
            if not m or m.group(1).count('<') != m.group(1).count('>') or '::MakeChildParser' in n:
                continue
            ks = [x for x in c.o if x[0] == 'k']
            parser = targs(m.group(2))[0]
            if m.group(1) == 'MasterParser':
                if not ks:
                    odd.append(c)
                    continue
                out.append((int(ks[0][1]), parser, None, '*', c))
                continue
            T = targs(m.group(1))[0]
            if len(ks) < 2:
                odd.append(c)
                continue
            r = prog.field_at(T, int(ks[1][1]))
            if not r or r[1] != 0:
                odd.append(c)
                continue
            mem, ty = r[0][1], r[0][4]
            card = '*' if ty.startswith('std::vector<webm::Element<') else '1'
            out.append((int(ks[0][1]), parser, (T, mem), card, c))
    return out, odd


def defaults(prog, cls):
    """{member: default} read from the structure's default constructor"""
    short = cls.split('::')[-1]
    ctor = [f for f in prog.get('%s::%s' % (cls, short)) if len(f.args) == 1]
    if not ctor:
        return None
    f = ctor[0]
    T = ir.terms(f)
    out, prov = {}, {}

    def target(v):
        base, off, var = T.split(v)
        if base == ('a', 0):
            r = prog.field_at(cls, off)
            return ('m', r[0][1]) if r else None
        if base[0] == 'i':
            return ('L', base[1])
        return None
    for i in f.all():
        if i.op == 'store':
            base, off, var = T.split(i.o[1])
            if base == ('a', 0):
                r = prog.field_at(cls, off)
                if r and r[1] == 0 and r[0][4].startswith('webm::Element<'):
                    v = i.o[0]
                    if v[0] == 'k':
                        out[r[0][1]] = abs(int(v[1])) if v[2] == 1 else int(v[1])
                    elif v[0] == 'fp':
                        out[r[0][1]] = float(v[1])
                    else:
                        out[r[0][1]] = '?'
        elif i.op in ('call', 'invoke') and i.o:
            n = prog.callee_name(i)
            d = target(i.o[0])
            if d is None:
                continue
            src = None
            for x in i.o[1:]:
                if x[0] == 'g' and prog.globals.get(x[1], {}).get('init', [None])[0] == 's':
                    src = prog.globals[x[1]]['init'][1].rstrip('\0')
                elif x[0] == 'i':
                    t = target(x)
                    if t in prov:
                        src = prov[t]
            if src is not None and d not in prov:
                prov[d] = src
            del n
    for k, v in prov.items():
        if k[0] == 'm':
            out[k[1]] = '"%s"' % v
    return out


def ancestry(prog, fn, k):
    """set of ancestor id tuples (None: unknown id) that ById can yield for the id k; None if not extractable"""
    ex = flow.Explorer(fn)
    res = set()
    first = fn.blocks[0][0]
    try:
        for kind, r, st, tr in ex.run(first, None, env0={('a', 0): (k, k)}):
            if kind != 'ret':
                continue
            v = ex.val(r.o[0], st)
            if v == (0, 0):
                res.add(None)
                continue
            if v != (1, 1):
                return None
            b = e = None
            for key, val in st['mem'].items():
                if key[0] == (('A', 1), 0) and key[1] == 8:
                    b = val
                if key[0] == (('A', 1), 8) and key[1] == 8:
                    e = val

            def gl(x):
                if x is None:
                    return None
                if x[0] == 'n' or x == ('iv', (0, 0)):
                    return ('', 0)
                if x[0] == 'g':
                    return (x[1], 0)
                if x[0] == 'ge':
                    return (x[1][1], x[2])
                return None
            b, e = gl(b), gl(e)
            if b is None or e is None or b[0] != e[0]:
                return None
            if b[0] == '':
                res.add(())
                continue
            init = prog.globals[b[0]]['init'][1]
            ids = [int(x[1]) for x in init]
            lo, hi = b[1] // 4, e[1] // 4
            if hi > len(ids):
                res.add('outside')
            else:
                res.add(tuple(ids[lo:hi]))
    except (flow.TooMany, KeyError, IndexError):
        return None
    return res


def run(ctx):
    p = ctx.prog
    ctx.rule('Extract, from the constructors of every element parser, which child ids it accepts and into which member, '
             'with which value parser and cardinality, each is stored; from the constructors of the value structures '
             'the default of every member; and, by following the ancestry lookup for each id constant, the chain of '
             'parents assumed after a seek. Compare all three with an element table written from the WebM '
             'specification.')
    roots, allels = schema.load()
    names = {e.id: e.name for e in allels}
    rootcls = {'Ebml': 'webm::EbmlParser', 'Segment': 'webm::SegmentParser'}
    und = []
    seen = set()

    def walk(el, cls):
        if (el.id, cls) in seen:
            return
        seen.add((el.id, cls))
        regs, odd = registrations(p, cls)
        if odd:
            und.append('%s: registration at %s has no constant id/member' % (cls, odd[0].loc))
        if not regs:
            und.append('%s: no child registrations found' % cls)
            return
        by = {}
        for r in regs:
            by.setdefault(r[0], []).append(r)
        T = next((r[2][0] for r in regs if r[2]), None)
        dflt = defaults(p, T) if T else None
        for ch in el.children:
            where = '%s in %s' % (ch.name, cls)
            if ch.id not in by:
                if odd:
                    continue
                ctx.oblig(False)
                ctx.report('missing:%s:%s' % (cls, ch.name), regs[0][4].loc, 'child element %s (0x%X) is not parsed by %s' % (
                    ch.name, ch.id, cls))
                continue
            ctx.count('child registrations')
            for id_, parser, mem, card, inst in by[ch.id]:
                bad = []
                k = kind_of(p, parser)
                want = 'master' if ch.kind == 'recurse' else ch.kind
                if k != want:
                    bad.append('read as %s instead of %s' % (k, want))
                if ch.member and (mem is None or mem[1] != ch.member):
                    # renamed member: only judged when the structure has a member of the expected name
                    if mem is None or any(m[1] == ch.member for m in p.fields(mem[0])):
                        bad.append('stored in %s instead of %s' % (mem[1] if mem else 'nothing', ch.member))
                if ch.member and card != ch.card:
                    bad.append('cardinality %s instead of %s' % (card, ch.card))
                ctx.oblig(not bad)
                ctx.sample('%s -> %s (%s)' % (where, mem[1] if mem else 'callback', k))
                for b in bad:
                    ctx.report('reg:%s:%s' % (cls, ch.name), inst.loc, 'element %s (0x%X) in %s is %s' % (
                        ch.name, ch.id, cls, b))
                if k == 'master' and ch.kind == 'master':
                    walk(ch, parser)
                if ch.kind == 'recurse' and parser != cls:
                    ctx.report('reg:%s:%s' % (cls, ch.name), inst.loc, '%s is not nested in itself' % ch.name)
                if ch.default is not None and ch.kind != 'master' and mem:
                    if dflt is None:
                        und.append('%s: default constructor not found' % T)
                        continue
                    have = dflt.get(mem[1], '""' if ch.default.startswith('"') else 0)
                    want = ch.default if ch.default.startswith('"') else float(ch.default)
                    have = have if isinstance(have, str) else float(have)
                    if have == '?':
                        und.append('%s.%s: default is not a constant' % (T, mem[1]))
                        continue
                    ctx.oblig(have == want)
                    ctx.count('defaults')
                    if have != want:
                        ctx.report('default:%s:%s' % (T, mem[1]), inst.loc, 'element %s defaults to %s, the schema says %s' % (
                            ch.name, have, ch.default))
        known = {c.id for c in el.children}
        for id_, rs in by.items():
            if id_ not in known and id_ != 0xEC and id_ in names:
                ctx.oblig(False)
                ctx.report('extra:%s:%x' % (cls, id_), rs[0][4].loc, '%s parses %s (0x%X) as a child of %s' % (
                    cls, names[id_], id_, el.name))
            if len(rs) > 1 and len({(r[1], r[2]) for r in rs}) > 1:
                ctx.oblig(False)
                ctx.report('dup:%s:%x' % (cls, id_), rs[0][4].loc, '%s registers 0x%X twice' % (cls, id_))

    for r in roots:
        cls = rootcls[r.name]
        if cls not in p.types:
            und.append('class %s not found' % cls)
            continue
        walk(r, cls)
    # ancestry
    fn = p.one('webm::Ancestory::ById', required=False)
    if fn is None or len(fn.args) != 2:
        und.append('ancestry lookup not found')
    else:
        want = {}
        for e in allels:
            if e.kind != 'recurse':
                want[e.id] = e.path[:-1]
        want[0xEC] = None
        want[0x5034] = None      # not a WebM element: unknown to the parser
        for k, w in want.items():
            got = ancestry(p, fn, k)
            if got is None:
                und.append('ancestry of 0x%X not extractable' % k)
                continue
            ctx.count('ancestries')
            ok = got == {w}
            ctx.oblig(ok)
            if not ok:
                def sh(x):
                    return 'unknown' if x is None else '/'.join(names.get(i, hex(i)) for i in x) if x != 'outside' else x
                ctx.report('ancestry:%s' % names.get(k, hex(k)), '%s:%s' % (fn.file, fn.line),
                           'the ancestry of %s is %s, the schema says %s' % (
                               names.get(k, hex(k)), ' or '.join(sh(g) for g in got), sh(w)))
    if und:
        ctx.undecided(und)
    ctx.need('elements decided', ctx.counts.get('child registrations', 0), 60)
