"""Guarded effects: a value stays inside its limits wherever it is used or kept.

Two forms of obligation, both decided from the source's control flow with the bounds prover:
  * on every way a function reports success, a field holds a value inside the limits;
  * from the place where a value is obtained, every way on either passes the tests that show it inside the limits
    or makes the function report failure.
"""
import math

import bounds
import ir

Z = bounds.Z
INF = float('inf')


class Fn(bounds.FnProver):
    """adds comparisons of floating-point values (values known not to be NaN) and pointers (never below zero)"""

    def _node(self, v):
        if v[0] == 'fp':
            return (Z, float(v[1]))
        if v[0] == 'i':
            i = self.f.inst(v)
            if i.op in ('fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi'):
                return self.node(i.o[0])
            if i.op == 'fmul':
                (a, x), (b, y) = self.node(i.o[0]), self.node(i.o[1])
                return (('fmul',) + tuple(sorted(((a, x), (b, y)), key=str)), 0)
        return super()._node(v)

    def cond_facts(self, v, truth, depth=0):
        if v[0] == 'i':
            i = self.f.inst(v)
            if i.op == 'fcmp':
                p = (i.pred or '')[1:]
                if p not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
                    return []
                if not truth:
                    p = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}[p]
                (a, x), (b, y) = self.node(i.o[0]), self.node(i.o[1])
                if b != Z and a != Z and not x and not y:
                    return {'le': [(a, b, 0)], 'lt': [(a, b, 0)], 'ge': [(b, a, 0)], 'gt': [(b, a, 0)]}.get(p, [])
                if b != Z:
                    a, x, b, y = b, y, a, x
                    p = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p, p)
                if b != Z or a == Z or x:
                    return []
                if p == 'lt':
                    return [(a, Z, math.nextafter(y, -INF))]
                if p == 'le':
                    return [(a, Z, y)]
                if p == 'gt':
                    return [(Z, a, -math.nextafter(y, INF))]
                if p == 'ge':
                    return [(Z, a, -y)]
                if p == 'eq':
                    return [(a, Z, y), (Z, a, -y)]
                return []
            if i.op == 'load':
                return self.flag(v, truth)
            if i.op == 'icmp' and i.pred in ('eq', 'ne') and (i.pred == 'eq') == truth and depth < 3:
                both = [super(Fn, self).cond_facts(o, True, depth + 3) for o in i.o if o[0] == 'i' and self.truth(o)]
                if len(both) == 2:
                    return [('ne', ('same', tuple(both[0]), tuple(both[1])), Z, 0)]
        elif v[0] == 'a':
            return self.flag(v, truth)
        return super().cond_facts(v, truth, depth)

    def truth(self, o):
        while o[0] == 'i' and self.f.inst(o).op in ('zext', 'trunc', 'freeze'):
            o = self.f.inst(o).o[0]
        return o[0] == 'i' and self.f.inst(o).op in ('icmp', 'xor')

    def flag(self, v, truth):
        """a condition that is nothing but a flag"""
        n, o = self.node(v)
        if n == Z:
            return []
        return [(Z, n, o - 1)] if truth else [(n, Z, -o), (Z, n, o)]

    def writes(self, i, c):
        # reached only through a reference to const
        if c[0][0] == 'a' and constref(self.f, c[0][1]):
            return None
        if i.op in ('call', 'invoke') and c[0][0] == 'loc' and not (i.callee or '').startswith('llvm.'):
            ts = self.prog.targets(i)
            at = [k for k, o in enumerate(i.o) if o[0] == 'i' and self.T.split(o)[0] == ('i', c[0][1])]
            if at and ts and not self.kept(c[0][1]) and all(
                    g.ptypes and k < len(g.ptypes) and (constref(g, k) or self.other(g, k, i.o[k], c)) for g in ts for k in at):
                return None
        return super().writes(i, c)

    def other(self, g, k, o, c):
        """a reference to another member, of a type that has no members of its own"""
        t = g.ptypes[k].strip()
        if not t.endswith('&') or not (t[:-1].strip().endswith('*') or t[:-1].strip() in SCALARS):
            return False
        m = self.cell(o)
        return m is not None and m[0] == c[0] and m[1] != c[1] and bool(m[1])

    def kept(self, al):
        """is the address of the local variable stored somewhere?"""
        return any(u.op == 'store' and u.o[0] == ('i', al) for u in self.f.uses().get(al, []))

    def where(self, n):
        if n[0] == 'fmul':
            ws = [w for w in (self.where(n[1][0]), self.where(n[2][0])) if w is not None]
            if not ws:
                return None
            return ws[0] if len(ws) == 1 or self.f.dominates(ws[1], ws[0]) else ws[1]
        return super().where(n)

    def ispointer(self, n):
        if n[0] == 'v':
            return self.f.insts[n[1]].ty == 'ptr'
        if n[0] == 'a':
            return n[1] < len(self.f.ptypes) and self.f.ptypes[n[1]].rstrip().endswith(('*', '&'))
        if n[0] in ('entry', 'post', 'clob', 'cphi'):
            t = self.ftype(n[-1])
            return t.rstrip().endswith(('*', '&'))
        return n[0] == '&'

    def intrinsic(self, n):
        out = super().intrinsic(n)
        if self.ispointer(n):
            out.append((Z, n, 0))
        elif n[0] == 'a' and n[1] < len(self.f.ptypes) and unsigned(self.f.ptypes[n[1]]):
            out.append((Z, n, 0))
        elif n[0] in ('entry', 'post') and unsigned(self.ftype(n[-1])):
            out.append((Z, n, 0))
        return out

    def ftype(self, c):
        if not c[2] or not c[1]:
            return ''
        for m in (self.prog.types.get(c[2]) or {}).get('members', ()):
            if m[0] == 'field' and m[1] == c[1][-1]:
                return m[4]
        return ''


SCALARS = ('bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long',
           'long long', 'unsigned long long', 'float', 'double')


def constref(f, k):
    t = f.ptypes[k].strip() if k < len(f.ptypes) else ''
    return t.startswith('const ') and t.endswith(('&', '*')) and not t.endswith(('*&', '**'))


def unsigned(t):
    t = t.replace('const', '').strip()
    return t in ('unsigned char', 'unsigned short', 'unsigned int', 'unsigned long', 'unsigned long long', 'size_t',
                 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', 'bool')


class Prover(bounds.Prover):
    def on(self, f):
        if 'guards' not in f._cache or f._cache['guards'].P is not self:
            f._cache['guards'] = Fn(self, f)
        return f._cache['guards']


def facts(fp, n):
    return sets(fp, n) if n[0] == 'post' else []


def sets(fp, n):
    """what a call leaves in a field, when it is the same constant on every way"""
    i = fp.f.insts[n[1]]
    ts = fp.prog.targets(i)
    if n[0] != 'post' or len(ts) != 1 or ts[0].decl or not ts[0].repo:
        return []
    g = ts[0]
    c = n[-1]
    memo = fp.P.__dict__.setdefault('setmemo', {})
    out = None
    for k, o in enumerate(i.o):
        if k < len(g.ptypes) and g.ptypes[k].rstrip().endswith(('*', '&')) and fp.base(fp.T.split(o)[0]) == c[0] and fp.T.split(o)[1] == 0:
            key = (g.name, k, c[1:])
            if key not in memo:
                memo[key] = None
                gp = fp.P.on(g)
                vs = {gp.version((('a', k),) + c[1:], r.bb, r.idx) for r in g.rets()}
                if len(vs) == 1 and next(iter(vs))[0] == Z:
                    memo[key] = next(iter(vs))[1]
            out = memo[key]
    return [] if out is None else [(n, Z, out), (Z, n, -out)]


# ------------------------------------------------------------------ ways a function reports success
def ways(fp, kind):
    """[(ret, block, chain, facts)]: kind 'true' (true, or a pointer), 'zero', 'nonneg' or 'any'"""
    out = []
    for r in fp.f.rets():
        if not r.o:
            out.append((r, r.bb, [], []))
        elif kind == 'any':
            out += [(r,) + w for w in arms(fp, r.o[0], r.bb)]
        else:
            out += [(r,) + w[:3] for w in _ways(fp, r.o[0], r.bb, kind, 0)]
    return out


def arms(fp, v, B, depth=0):
    f = fp.f
    if v[0] == 'i' and f.inst(v).op == 'phi' and depth < 6:
        out = []
        for x, pb in f.inst(v).phi:
            for b2, ch, fs in arms(fp, x, pb, depth + 1):
                out.append((b2, ch + [(pb, f.inst(v).bb)], fs + (fp.edge_facts(pb, f.inst(v).bb) if b2 == pb else [])))
        return out
    return [(B, [], [])]


def failing(fp, v, kind, b, extra):
    """is the result v (an operand) known to mean failure?"""
    n, o = fp.node(v)
    if kind == 'true':
        return fp.prove((n, o), (Z, 0), 0, b, extra) and fp.prove((Z, 0), (n, o), 0, b, extra)
    if fp.prove((n, o), (Z, 0), -1, b, extra):
        return True
    if kind == 'zero':
        return fp.prove((Z, 0), (n, o), -1, b, extra) or any(
            t[0] == 'ne' and {t[1], t[2]} == {n, Z} and (-t[3] if t[1] == n else t[3]) == o for t in list(fp.facts(b)) + list(extra))
    return False


def _ways(fp, v, B, kind, depth):
    f = fp.f
    while v[0] == 'i' and f.inst(v).op in ('zext', 'sext', 'freeze', 'trunc'):
        v = f.inst(v).o[0]
    if v[0] in ('k', 'n', 'z'):
        k = int(v[1]) if v[0] == 'k' else 0
        good = k != 0 if kind == 'true' else k == 0 if kind in ('zero', 'const') else k >= 0
        return [(B, [], [])] if good else []
    if v[0] == 'i' and f.inst(v).op == 'phi' and depth < 8:
        i = f.inst(v)
        out = []
        for x, pb in i.phi:
            for b2, ch, fs in _ways(fp, x, pb, kind, depth + 1):
                fs = fs + fp.edge_facts(pb, i.bb) if b2 == pb else fs
                if b2 == pb and failing(fp, x, kind, pb, fs):
                    continue
                out.append((b2, ch + [(pb, i.bb)], fs))
        return out
    if kind == 'const' or failing(fp, v, kind, B, []):
        return []
    n, o = fp.node(v)
    if kind == 'true':
        return [(B, [], fp.cond_facts(v, True))]
    if kind == 'zero':
        fs = [(n, Z, -o), (Z, n, o)]
        i = f.inst(v) if v[0] == 'i' else None
        if i is not None and i.op in ('call', 'invoke') and fp.P.post_facts:
            fs += fp.P.post_facts(fp, i, 'zero')
        return [(B, [], fs)]
    return [(B, [], [(Z, n, o)])]


def back(fp, n, w):
    """what a node at the return was on that way"""
    for pb, merge in reversed(w[2]):
        iv = fp.phi_in(n[0], merge)
        if iv and pb in iv:
            n = (iv[pb][0], iv[pb][1] + n[1])
    return n


def holds(fp, cell, lo, hi, w):
    """the field is inside the limits on that way of returning"""
    r, b, ch, ex = w
    n = fp.version(cell, r.bb, r.idx)
    n = back(fp, n, w)
    return (lo is None or fp.prove((Z, 0), n, -lo, b, ex)) and (hi is None or fp.prove(n, (Z, 0), hi, b, ex))


def inside(fp, n, lo, hi, b, extra=()):
    return (lo is None or fp.prove((Z, 0), n, -lo, b, extra)) and (hi is None or fp.prove(n, (Z, 0), hi, b, extra))


def tested(fp, n, lo, hi, b, facts=()):
    """do the tests made on the value itself show it inside the limits?"""
    x, o = n
    if x == Z:
        return (lo is None or o >= lo) and (hi is None or o <= hi)
    a, z, out = -INF, INF, set()
    for t in list(fp.facts(b)) + list(facts) + fp.intrinsic(x):
        if t[0] == 'ne':
            if t[1] == x and t[2] == Z:
                out.add(t[3] + o)
            elif t[2] == x and t[1] == Z:
                out.add(-t[3] + o)
        elif t[0] == x and t[1] == Z:
            z = min(z, t[2] + o)
        elif t[0] == Z and t[1] == x:
            a = max(a, -t[2] + o)
    while a in out:
        a += 1
    while z in out:
        z -= 1
    return (lo is None or a >= lo) and (hi is None or z <= hi)


# ------------------------------------------------------------------ ways on from a place
class Budget(Exception):
    pass


def resolve(fp, v, env):
    while v[0] == 'i':
        i = fp.f.inst(v)
        if i.op in ('zext', 'sext', 'freeze', 'trunc'):
            v = i.o[0]
        elif i.op == 'phi' and i.id in env:
            return env[i.id]        # resolved when it was merged
        else:
            break
    return v


def const(fp, v, env, depth=0):
    v = resolve(fp, v, env)
    if v[0] == 'k':
        return int(v[1])
    if v[0] in ('n', 'z'):
        return 0
    if v[0] == 'i' and depth < 4:
        i = fp.f.inst(v)
        if i.op == 'icmp' and i.pred in ('eq', 'ne', 'slt', 'sgt', 'sle', 'sge'):
            a, b = const(fp, i.o[0], env, depth + 1), const(fp, i.o[1], env, depth + 1)
            if a is not None and b is not None:
                return int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sgt': a > b, 'sle': a <= b, 'sge': a >= b}[i.pred])
        if i.op == 'xor' and i.ty == 'i1':
            a, b = const(fp, i.o[0], env, depth + 1), const(fp, i.o[1], env, depth + 1)
            if a is not None and b is not None:
                return (a ^ b) & 1
    return None


def escapes(fp, call, shown, kind, limit=2500, stop=None, fuel0=250):
    old, fp.P.fuel0 = fp.P.fuel0, fuel0
    try:
        return _escapes(fp, call, shown, kind, limit, stop)
    finally:
        fp.P.fuel0 = old


def substitute(fp, facts, env):
    """facts about merged values also hold for the values that were merged on this way"""
    out, dead = list(facts), False
    at = {}
    for k, v in env.items():
        n = fp.node(('i', k))
        if n == (('v', k), 0):
            at[n[0]] = fp.node(v)
    for t in facts:
        r, i = list(t), 1 if t[0] == 'ne' else 0
        a, b, c = t[i:i + 3]
        if a not in at and b not in at:
            continue
        if a in at:
            a, o = at[a]
            c -= o
        if b in at:
            b, o = at[b]
            c += o
        if a == b:
            dead = dead or (c == 0 if i else c < 0)
            continue
        t2 = (('ne',) if i else ()) + (a, b, c)
        if t2 not in out:
            out.append(t2)
    return out, dead


def _escapes(fp, call, shown, kind, limit, stop):
    """a way on from the call on which the value is neither shown to be inside its limits nor refused:
    returns the instruction it gets to, or None when there is none"""
    f = fp.f
    seen = set()
    fuel = [limit]
    stack = [(call.bb if call else f.blocks[0][0].bb, {}, (), True)]
    again = False
    later = []
    while stack or later:
        if not stack:
            # ways on which the next value is decoded: what is remembered of this one (a flag) may still refuse it
            stack, later, again = later, [], True
            seen, fuel = set(), [limit]
        bb, env, facts, first = stack.pop()
        key = (bb, tuple(sorted(env.items())), facts)
        if key in seen:
            continue
        seen.add(key)
        fuel[0] -= 1
        if fuel[0] < 0:
            if again:
                return call
            raise Budget()
        t = f.blocks[bb][-1]
        if call and not first and bb == call.bb and not again:
            keep = {}
            for k, x in env.items():
                if x[0] in ('k', 'n', 'z'):
                    keep[k] = x
                elif x[0] == 'i' and fp.f.inst(x).ty == 'i1':
                    # a remembered test of the value: when it says the value is good, it is
                    for truth in (True, False):
                        cf = tuple(fp.cond_facts(x, truth))
                        if cf and shown(fp, f.inst(x).bb, facts + cf):
                            keep[k] = ('k', str(int(not truth)))
            env = keep
            if not env:
                return call
            later.append((bb, env, (), False))
            continue
        for i in f.blocks[bb][(call.idx + 1 if first and call else 0):]:
            if stop and stop(i):
                return i
        if t.op == 'ret' and kind is None:
            continue
        if t.op == 'ret':
            if not t.o:
                return t
            v = resolve(fp, t.o[0], env)
            if v[0] in ('k', 'n', 'z'):
                k = int(v[1]) if v[0] == 'k' else 0
                bad = k == 0 if kind == 'true' else k != 0 if kind == 'zero' else k < 0
                if not bad:
                    return t
            elif not failing(fp, v, kind, bb, facts):
                cf = tuple(fp.cond_facts(v, True)) if kind == 'true' and v[0] == 'i' else ()
                if v[0] == 'i' and kind == 'true' and not cf:
                    n = fp.node(v)
                    cf = (('ne', n[0], Z, -n[1]),)
                if cf:
                    cf, dead = substitute(fp, cf, env)
                    cf = tuple(cf)
                    if dead:
                        continue
                if not (not again and cf and shown(fp, bb, facts + cf)):
                    return t
            continue
        if t.op in ('unreachable', 'resume'):
            continue
        for s in dict.fromkeys(f.succs(bb)):
            dead = False
            for c in f.edge_conds(bb, s):
                k = const(fp, c[1], env)
                if k is not None and (c[0] == 'c' and bool(k) != c[2] or c[0] == 'sw' and (k in [int(x) for x in c[2]]) != c[3]):
                    dead = True
            if dead:
                continue
            new = []
            for c in f.edge_conds(bb, s):
                if c[0] == 'c':
                    r = resolve(fp, c[1], env)
                    new += fp.cond_facts(r, c[2])
                else:
                    new += fp.one(c)
                    if c[0] == 'sw' and c[3] and len(c[2]) > 1:
                        # one of several values: kept as a fact about nothing else
                        new.append(('ne', ('sw', fp.node(c[1]), tuple(sorted(int(x) for x in c[2]))), Z, 0))
            new, dead = substitute(fp, new, env)
            if dead:
                continue
            fs = facts + tuple(x for x in new if x not in facts)
            fs = fs[-24:]
            if not again and shown(fp, bb, fs):
                continue
            e2 = dict(env)
            for i in f.blocks[s]:
                if i.op != 'phi':
                    break
                for x, pb in i.phi:
                    if pb == bb:
                        x = resolve(fp, x, env)
                        if x == ('i', i.id):
                            x = env.get(i.id, x)
                        e2[i.id] = x
            stack.append((s, e2, fs, False))
    return None
