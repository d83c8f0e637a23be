"""Loader and query layer over the JSON program dump produced by irdump."""
import json
import re
from functools import lru_cache


class AnchorError(Exception):
    """An anchor the analysis relies on vanished: the check gives no verdict."""


class Inst:
    __slots__ = ('fn', 'bb', 'idx', 'id', 'op', 'ty', 'ln', 'fl', 'var', 'vty', 'o', 'callee', 'cv',
                 'succ', 'cases', 'phi', 'pred', 'off', 'coff', 'voff', 'sty', 'aty', 'asz', 'sz',
                 'nsw', 'agg')

    def __init__(self, fn, bb, idx, d):
        g = d.get
        self.fn, self.bb, self.idx = fn, bb, idx
        self.id, self.op, self.ty = d['id'], d['op'], d['ty']
        self.ln, self.fl, self.var, self.vty = g('ln', 0), g('fl'), g('var'), g('vty')
        self.o = [tuplify(x) for x in g('o', [])]
        self.callee = g('callee')
        self.cv = tuplify(g('cv')) if 'cv' in d else None
        self.succ = g('succ')
        self.cases = [(int(c[0][1]), c[1]) for c in g('cases', [])]
        self.phi = [(tuplify(v), b) for v, b in g('in', [])]
        self.pred = g('pred')
        self.off, self.coff, self.voff = g('off'), g('coff'), g('voff')
        if self.voff:
            self.voff = [(tuplify(v), s) for v, s in self.voff]
        self.sty, self.aty, self.asz, self.sz = g('sty'), g('aty'), g('asz'), g('sz')
        self.nsw, self.agg = g('nsw'), g('idx')

    @property
    def ref(self):
        return ('i', self.id)

    @property
    def loc(self):
        f = self.fl if self.fl and self.fl != '?' else self.fn.file
        return '%s:%s' % (f, self.ln)

    def __repr__(self):
        return '<%s %%%d %s %s>' % (self.fn.clean, self.id, self.op, self.loc)


def tuplify(x):
    if isinstance(x, list):
        return tuple(tuplify(y) for y in x)
    return x


class Fn:
    def __init__(self, prog, d):
        self.prog = prog
        self.name, self.clean, self.dem = d['name'], d['clean'], d['dem']
        self.repo, self.decl = d['repo'], d['decl']
        self.noreturn = d['noreturn']
        self.internal = d['internal']
        if not self.repo:
            return
        self.file, self.line = d['file'], d['line']
        self.cls = d.get('cls')
        self.bname = d['bname']
        self.virtual, self.artificial, self.access = d['virtual'], d['artificial'], d['access']
        self.ret = d.get('ret', 'void')
        self.ptypes = d.get('ptypes', [])
        self.rty, self.sret, self.nargs = d['rty'], d['sret'], d['nargs']
        self.args, self.atypes = d['args'], d['atypes']
        self._raw = d['blocks']
        self._blocks = None
        self._cache = {}

    @property
    def blocks(self):
        if self._blocks is None:
            self._blocks = [[Inst(self, bi, i, x) for i, x in enumerate(b)] for bi, b in enumerate(self._raw)]
            self._raw = None
            self.insts = {}
            for b in self._blocks:
                for i in b:
                    self.insts[i.id] = i
        return self._blocks

    def __repr__(self):
        return '<Fn %s>' % self.clean

    def inst(self, ref):
        self.blocks
        return self.insts[ref[1]] if ref[0] == 'i' else None

    def all(self):
        for b in self.blocks:
            for i in b:
                yield i

    def calls(self):
        for i in self.all():
            if i.op in ('call', 'invoke') and not (i.callee and i.callee.startswith('llvm.')):
                yield i

    def succs(self, b):
        t = self.blocks[b][-1]
        return t.succ or []

    def preds(self):
        if 'preds' not in self._cache:
            p = {b: [] for b in range(len(self.blocks))}
            for b in range(len(self.blocks)):
                for s in dict.fromkeys(self.succs(b)):
                    p[s].append(b)
            self._cache['preds'] = p
        return self._cache['preds']

    def rpo(self):
        if 'rpo' not in self._cache:
            seen, out = set(), []
            stack = [(0, iter(self.succs(0)))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    out.append(b)
                    stack.pop()
            self._cache['rpo'] = out[::-1]
        return self._cache['rpo']

    def idom(self):
        if 'idom' not in self._cache:
            self._cache['idom'] = _idom(self.rpo(), self.preds(), 0)
        return self._cache['idom']

    def dominates(self, a, b):
        d = self.idom()
        while b is not None:
            if a == b:
                return True
            nb = d.get(b)
            if nb == b:
                return False
            b = nb
        return False

    def inst_dominates(self, a, b):
        if a.bb == b.bb:
            return a.idx < b.idx
        return self.dominates(a.bb, b.bb)

    def rets(self):
        return [b[-1] for bi, b in enumerate(self.blocks) if b[-1].op == 'ret' and bi in set(self.rpo())]

    def reach_from(self, b):
        seen, st = set(), [b]
        while st:
            x = st.pop()
            for s in self.succs(x):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def loops(self):
        """natural loops: {header: set(blocks)}"""
        if 'loops' not in self._cache:
            L = {}
            pr = self.preds()
            rp = set(self.rpo())
            for b in self.rpo():
                for s in self.succs(b):
                    if self.dominates(s, b):
                        body = L.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body:
                                continue
                            body.add(x)
                            st.extend(p for p in pr[x] if p in rp)
            self._cache['loops'] = L
        return self._cache['loops']

    def uses(self):
        if 'uses' not in self._cache:
            u = {}
            for i in self.all():
                for x in i.o:
                    if x[0] == 'i':
                        u.setdefault(x[1], []).append(i)
                for x, _ in i.phi:
                    if x[0] == 'i':
                        u.setdefault(x[1], []).append(i)
                if i.cv and i.cv[0] == 'i':
                    u.setdefault(i.cv[1], []).append(i)
            self._cache['uses'] = u
        return self._cache['uses']

    # --- control facts ---------------------------------------------------
    def edge_conds(self, b, s):
        """branch facts established on CFG edge b->s: list of (cond operand, bool) or ('sw', operand, vals, eq)"""
        t = self.blocks[b][-1]
        if t.op == 'br' and t.o:
            if t.succ[0] == t.succ[1]:
                return []
            return [('c', t.o[0], s == t.succ[0])]
        if t.op == 'switch':
            vals = [v for v, x in t.cases if x == s]
            if s == t.succ[0]:
                if vals:
                    return []
                return [('sw', t.o[0], tuple(v for v, _ in t.cases), False)]
            return [('sw', t.o[0], tuple(vals), True)]
        return []

    def dom_facts(self, b):
        """facts that hold on entry of block b because of dominating single-entry edges."""
        key = ('df', b)
        if key in self._cache:
            return self._cache[key]
        out = []
        d = self.idom()
        pr = self.preds()
        x = b
        while True:
            ps = [p for p in pr[x] if p in d]
            if len(ps) == 1 and ps[0] != x:
                out += self.edge_conds(ps[0], x)
            else:
                # all back edges dominated by x except one entry edge
                ent = [p for p in ps if not self.dominates(x, p)]
                if len(ent) == 1 and False:
                    out += self.edge_conds(ent[0], x)
            p = d.get(x)
            if p is None or p == x:
                break
            x = p
        self._cache[key] = out
        return out


def _idom(rpo, preds, root):
    num = {b: i for i, b in enumerate(rpo)}
    idom = {root: root}
    ch = True
    while ch:
        ch = False
        for b in rpo:
            if b == root:
                continue
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True
    return idom


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.inlined = d['inlined_helpers']
        self.fn = {}
        self.by_clean = {}
        for f in d['functions']:
            x = Fn(self, f)
            self.fn[x.name] = x
            if x.repo:
                self.by_clean.setdefault(x.clean, []).append(x)
        self.globals = {g['name']: g for g in d['globals']}
        self.types = {}
        for t in d['types']:
            self.types.setdefault(t['name'], t)
        self.vtent = None

    def repo_fns(self, pred=None):
        if not hasattr(self, '_rf'):
            inl = set(self.inlined)
            self._rf = [f for f in self.fn.values() if f.repo and (f.virtual or f.clean not in inl)]
        return [f for f in self._rf if pred is None or pred(f)]

    def one(self, clean, required=True):
        l = self.by_clean.get(clean, [])
        if not l:
            if required:
                raise AnchorError('function %s not found in the program' % clean)
            return None
        return l[0]

    def get(self, clean):
        return self.by_clean.get(clean, [])

    # ---- types
    def strip(self, t):
        t = t.strip()
        while True:
            if t.startswith('const '):
                t = t[6:]
            elif t.endswith('*') or t.endswith('&'):
                t = t[:-1]
            else:
                return t

    def pointee(self, t):
        t = t.strip()
        while t.startswith('const ') and not (t.endswith('*') or t.endswith('&')):
            t = t[6:]
        if t.endswith('*') or t.endswith('&'):
            u = t[:-1]
            while u.startswith('const '):
                u = u[6:]
            return u
        return None

    def fields(self, tname):
        t = self.types.get(tname)
        return [m for m in t['members'] if m[0] == 'field'] if t else []

    def bases(self, tname):
        t = self.types.get(tname)
        return [(m[1], m[2]) for m in t['members'] if m[0] == 'base'] if t else []

    def field_at(self, tname, off):
        """[(name, type, size, owner)] path of the member at byte offset, innermost last."""
        t = self.types.get(tname)
        if not t:
            return None
        for m in t['members']:
            if m[0] == 'field' and m[2] <= off < m[2] + max(m[3], 1):
                return m, off - m[2], tname
        for b, bo in self.bases(tname):
            r = self.field_at(b, off - bo)
            if r:
                return r
        return None

    def all_bases(self, tname):
        out = []
        st = [tname]
        while st:
            x = st.pop()
            for b, _ in self.bases(x):
                if b not in out:
                    out.append(b)
                    st.append(b)
        return out

    def derived(self, tname):
        return [t for t in self.types if tname in self.all_bases(t)]

    # ---- virtual dispatch
    def vtables(self):
        if self.vtent is None:
            self.vtent = {}
            for g in self.globals.values():
                if 'types' in g and 'init' in g:
                    slots = []

                    def flat(x):
                        if x[0] == 'arr':
                            for y in x[1]:
                                flat(y)
                        else:
                            slots.append(x)
                    flat(g['init'])
                    for off, tid in g['types']:
                        self.vtent.setdefault(tid, []).append((g['name'], off // 8, slots))
        return self.vtent

    def vslot(self, inst):
        """(type id, byte offset) of a virtual call, or None."""
        if not inst.cv or inst.cv[0] != 'i':
            return None
        f = inst.fn
        ld = f.inst(inst.cv)
        if ld.op != 'load':
            return None
        off = 0
        a = ld.o[0]
        vt = a
        if a[0] == 'i':
            g = f.inst(a)
            if g.op == 'getelementptr' and g.off is not None:
                off = g.off
                vt = g.o[0]
        if vt[0] != 'i':
            return None
        tid = None
        for u in f.uses().get(vt[1], []):
            if u.op == 'call' and u.callee == 'llvm.type.test':
                t = u.o[1][1]
                # choose the type test closest before the call
                if u.bb == inst.bb and u.idx < inst.idx or tid is None:
                    tid = t
        if tid is None:
            return None
        return tid, off

    def targets(self, inst):
        """resolved callees (Fn objects) of a call instruction."""
        if inst.callee:
            f = self.fn.get(inst.callee)
            return [f] if f else []
        vs = self.vslot(inst)
        if not vs:
            return []
        tid, off = vs
        out = []
        for _, base, slots in self.vtables().get(tid, []):
            i = base + off // 8
            if 0 <= i < len(slots) and slots[i][0] == 'f':
                f = self.fn.get(slots[i][1])
                if f and f not in out and f.name != '__cxa_pure_virtual':
                    out.append(f)
        return out

    def vmethod(self, inst):
        """declared (class, method) of a virtual call, from the debug info of the static class."""
        vs = self.vslot(inst)
        if not vs:
            return None
        tid, off = vs
        cls = self.cls_of_tid(tid)
        if not cls:
            return None
        m = self.slot_name(cls, off // 8)
        return (cls, m)

    def cls_of_tid(self, tid):
        if not hasattr(self, '_tid'):
            self._tid = {t['id']: t['name'] for t in self.types.values() if t['id']}
        r = self._tid.get(tid)
        if r is None:
            m = re.match(r'_ZTS(N?)(.*?)E?$', tid)
            parts, rest = [], m.group(2) if m else ''
            while rest:
                k = re.match(r'(\d+)', rest)
                if not k:
                    break
                n = int(k.group(1))
                rest = rest[k.end():]
                parts.append(rest[:n])
                rest = rest[n:]
            r = '::'.join(parts)
            r = r if r in self.types else None
            self._tid[tid] = r
        return r

    def slot_name(self, cls, slot):
        t = self.types.get(cls)
        if not t:
            return None
        for m in t['members']:
            if m[0] == 'method' and m[3] and m[6] == slot and not m[1].startswith('~'):
                return m[1]
        for b, bo in self.bases(cls):
            if bo == 0:
                r = self.slot_name(b, slot)
                if r:
                    return r
        return None

    def callee_name(self, inst):
        """human name of a call: clean name or Class::method (virtual)."""
        if inst.callee:
            f = self.fn.get(inst.callee)
            return f.clean if f else inst.callee
        vm = self.vmethod(inst)
        return '%s::%s' % vm if vm else '<indirect>'


# ---------------------------------------------------------------- terms
class Terms:
    """Symbolic names for SSA values: fields by name, calls by callee, constants."""

    def __init__(self, fn):
        self.fn = fn
        self.prog = fn.prog
        self.memo = {}
        self.tmemo = {}

    def ptype(self, v, depth=0):
        """C++ type (debug-info name) of the object a pointer operand points to."""
        if depth > 20:
            return None
        k = v
        if k in self.tmemo:
            return self.tmemo[k]
        self.tmemo[k] = None
        r = self._ptype(v, depth)
        self.tmemo[k] = r
        return r

    def vtype(self, v, depth=0):
        """C++ type of the value (as declared), best effort."""
        f, p = self.fn, self.prog
        if v[0] == 'a':
            n = v[1] - (1 if f.sret else 0)
            if n < 0:
                return f.ret + '*'
            if 0 <= n < len(f.ptypes):
                return f.ptypes[n]
            return None
        if v[0] != 'i':
            return None
        i = f.inst(v)
        if i.op == 'load':
            a = self.addr_type(i.o[0], depth + 1)
            return a
        if i.op in ('call', 'invoke'):
            if i.callee:
                g = p.fn.get(i.callee)
                if g and g.repo:
                    return g.ret
            else:
                t = p.targets(i)
                if t and t[0].repo:
                    return t[0].ret
            return i.vty
        if i.op == 'phi':
            for x, _ in i.phi:
                if x[0] in ('i', 'a'):
                    t = self.vtype(x, depth + 1) if depth < 8 else None
                    if t:
                        return t
        if i.op == 'select':
            return self.vtype(i.o[1], depth + 1) if depth < 8 else None
        return i.vty

    def _ptype(self, v, depth):
        f, p = self.fn, self.prog
        if v[0] == 'i':
            i = f.inst(v)
            if i.op == 'alloca':
                return i.vty
            if i.op == 'getelementptr':
                return self.addr_type(v, depth + 1)
        t = self.vtype(v, depth + 1)
        return p.pointee(t) if t else None

    def split(self, v):
        """(base operand, constant offset, variable part tuple) of an address, through geps."""
        off = 0
        var = ()
        while v[0] == 'i':
            i = self.fn.inst(v)
            if i.op == 'getelementptr':
                if i.off is not None:
                    off += i.off
                elif i.voff is not None:
                    off += i.coff
                    var = var + tuple(i.voff)
                else:
                    break
                v = i.o[0]
            elif i.op in ('bitcast', 'addrspacecast'):
                v = i.o[0]
            else:
                break
        if v[0] == 'ge':
            off += v[2]
            v = v[1]
        return v, off, var

    def member(self, v):
        """(base operand, [field names], owner class, field type) for a field address; None otherwise."""
        base, off, var = self.split(v)
        # type of base pointee
        t = None
        if base[0] == 'i' and self.fn.inst(base).op == 'alloca':
            t = self.fn.inst(base).vty
            t = self.prog.strip(t) if t else None
        elif base[0] in ('i', 'a'):
            vt = self.vtype(base)
            t = self.prog.pointee(vt) if vt else None
        if t is None or t not in self.prog.types:
            # try gep source type of the outermost gep
            x = v
            st = None
            o2 = 0
            while x[0] == 'i' and self.fn.inst(x).op == 'getelementptr':
                g = self.fn.inst(x)
                s = g.sty
                if s and (s.startswith('class.') or s.startswith('struct.')):
                    n = re.sub(r'^(class|struct)\.', '', s)
                    n = re.sub(r'\.base$', '', n)
                    n = re.sub(r'\.\d+$', '', n)
                    if n in self.prog.types:
                        st = n
                        base2, o2, _ = self.split(g.o[0])
                        # offset relative to that gep
                        tot = off - o2
                        return self._walk(base, n, tot, var, o2)
                x = g.o[0]
            return (base, ['+%d' % off] if off else [], None, None, var)
        return self._walk(base, t, off, var, 0)

    def _walk(self, base, t, off, var, pre):
        names = []
        if pre:
            names.append('+%d' % pre)
        owner = None
        cur = t
        while cur in self.prog.types:
            r = self.prog.field_at(cur, off)
            if not r:
                break
            m, rest, own = r
            names.append(m[1])
            owner = own
            cur = m[4]
            off = rest
            if cur.endswith('*'):
                break
            if off == 0 and cur in self.prog.types and not var:
                # descend into first member only when it is a repo struct with a field there
                pass
            if cur not in self.prog.types:
                break
            # descend automatically; a load at offset 0 of a struct is resolved by caller size
        if off:
            names.append('+%d' % off)
        return (base, names, owner, cur, var)

    def addr_type(self, v, depth=0):
        """declared type of the object living at address v."""
        if depth > 20:
            return None
        base, off, var = self.split(v)
        if off == 0 and not var:
            if base[0] == 'i' and self.fn.inst(base).op == 'alloca':
                return self.fn.inst(base).vty
            if base[0] in ('i', 'a'):
                t = self.vtype(base, depth + 1)
                pt = self.prog.pointee(t) if t else None
                if pt is None:
                    return None
                if pt in self.prog.types:
                    m = self._walk(base, pt, 0, (), 0)
                    return m[3]
                return pt
            return None
        m = self.member(v)
        t = m[3]
        if t and '[' in t and var:
            t = t[:t.index('[')]
        return t

    def term(self, v, depth=0):
        k = v
        if k in self.memo:
            return self.memo[k]
        if depth > 60:
            return ('deep',)
        self.memo[k] = ('cyc',) + tuple(v[:2])
        r = self._term(v, depth + 1)
        self.memo[k] = r
        return r

    def addr(self, v, depth=0):
        if v[0] == 'g':
            return ('glob', v[1])
        base, names, owner, ft, var = self.member(v)
        b = self.term(base, depth + 1)
        for n in names:
            b = ('.', b, n)
        for x, s in var:
            b = ('[]', b, self.term(x, depth + 1))
        return b

    def _term(self, v, depth):
        f = self.fn
        if v[0] == 'k':
            return ('k', int(v[1]))
        if v[0] == 'n':
            return ('k', 0)
        if v[0] == 'a':
            nm = f.args[v[1]] or 'a%d' % v[1]
            return ('arg', v[1], nm)
        if v[0] == 'f':
            g = self.prog.fn.get(v[1])
            return ('fn', g.clean if g else v[1])
        if v[0] == 'g':
            return ('glob', v[1])
        if v[0] == 'ge':
            return ('ge', self._term(v[1], depth), v[2])
        if v[0] != 'i':
            return tuple(str(x) for x in v)
        i = f.inst(v)
        op = i.op
        if op == 'load':
            return ('ld', self.addr(i.o[0], depth))
        if op == 'getelementptr':
            return ('&', self.addr(v, depth))
        if op == 'alloca':
            return ('loc', i.var or i.id)
        if op in ('call', 'invoke'):
            return ('call', self.prog.callee_name(i)) + tuple(self.term(x, depth) for x in i.o)
        if op == 'phi':
            return ('phi', i.id)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            if op in ('zext', 'sext', 'trunc'):
                t = self.term(i.o[0], depth)
                return t if t[0] == 'k' else ('cast', op, i.ty, t)
            return self.term(i.o[0], depth)
        if op == 'icmp':
            return ('cmp', i.pred, self.term(i.o[0], depth), self.term(i.o[1], depth))
        if op == 'select':
            return ('sel',) + tuple(self.term(x, depth) for x in i.o)
        return (op,) + tuple(self.term(x, depth) for x in i.o)


def terms(fn):
    if 'terms' not in fn._cache:
        fn._cache['terms'] = Terms(fn)
    return fn._cache['terms']


def strip_casts(t):
    while isinstance(t, tuple) and t and t[0] == 'cast':
        t = t[3]
    return t


def show(t):
    """readable rendering of a term"""
    if not isinstance(t, tuple):
        return str(t)
    h = t[0]
    if h == 'k':
        return str(t[1])
    if h == 'arg':
        return t[2]
    if h == '.':
        return '%s.%s' % (show(t[1]), t[2])
    if h == '[]':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if h == 'ld':
        return '*' + show(t[1]) if t[1][0] not in ('.', '[]') else show(t[1])
    if h == '&':
        return '&' + show(t[1])
    if h == 'loc':
        return str(t[1])
    if h == 'cast':
        return show(t[3])
    if h == 'call':
        return '%s(%s)' % (t[1].split('::')[-1], ', '.join(show(x) for x in t[2:]))
    if h == 'cmp':
        return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
    if h == 'phi':
        return 'phi%d' % t[1]
    return '%s(%s)' % (h, ', '.join(show(x) for x in t[1:]))
