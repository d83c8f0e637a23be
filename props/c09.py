"""C09: a failed allocation is reported by the call that needed it and its null result is never dereferenced."""
import errflow
import flow

INT = ('int', 'long', 'long long')
NEW = ('_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
SCOPE = ('mkvparser/', 'mkvmuxer/', 'common/hdr_util')


class NullEx(flow.Explorer):
    """explorer that notes dereferences of pointers known to be null on the path"""

    def __init__(self, fn, **kw):
        super().__init__(fn, **kw)
        self.deref = []

    def step(self, i, st, given=None):
        if given is None:
            a = None
            if i.op == 'load':
                a = i.o[0]
            elif i.op == 'store':
                a = i.o[1]
            if a is not None and self.nullbase(a, st):
                self.deref.append(i)
            if i.op in ('call', 'invoke'):
                if i.callee and (i.callee.startswith('llvm.memcpy') or i.callee.startswith('llvm.memset') or
                                 i.callee.startswith('llvm.memmove') or i.callee in ('memcpy', 'strcpy', 'strncpy', 'snprintf')):
                    n = 2 if 'memcpy' in i.callee or 'memmove' in i.callee or i.callee.startswith('str') else 1
                    if any(self.val(x, st) == flow.ZERO for x in i.o[:n]) and not (
                            len(i.o) > 2 and self.val(i.o[2], st) == flow.ZERO):
                        self.deref.append(i)
                else:
                    for t in self.fn.prog.targets(i):
                        if t.repo and t.args and t.args[0] == 'this' and i.o and self.val(i.o[0], st) == flow.ZERO:
                            self.deref.append(i)
                            break
        return super().step(i, st, given)

    def nullbase(self, v, st):
        n = 0
        while n < 40:
            n += 1
            v = self.root(v, st)
            if v[0] == 'n':
                return True
            if v[0] == 'i':
                i = self.fn.inst(v)
                if i.op == 'getelementptr':
                    v = i.o[0]
                    continue
            return v[0] in ('i', 'iv') and self.val(v, st) == flow.ZERO
        return False


def allocators(p, fall, root):
    """functions that return a null pointer or what they have just allocated, and nothing else"""
    out = set()
    while True:
        new = set()
        for f in fall.values():
            if f.name in out or not f.ret.endswith('*'):
                continue
            made, seen = [], set()
            st = [r.o[0] for r in f.rets() if r.o]
            good = bool(st)
            while st and good:
                v = st.pop()
                if v[0] == 'n' or v in seen:
                    continue
                seen.add(v)
                i = f.inst(v) if v[0] == 'i' else None
                if i is None:
                    good = False
                elif i.op == 'phi':
                    st += [x for x, _ in i.phi]
                elif i.op == 'select':
                    st += list(i.o[-2:])
                elif i.op in ('call', 'invoke') and (root(i) or any(t.name in out for t in p.targets(i))):
                    made.append(i)
                elif i.op == 'getelementptr' and i.off:
                    st.append(i.o[0])
                else:
                    good = False
            if good and made:
                new.add(f.name)
        if not new:
            return out
        out |= new


def run(ctx):
    p = ctx.prog
    ctx.rule('For every non-throwing allocation in the parser, the muxer and the metadata copy helpers, and for every '
             'call of a function that (transitively) allocates, assume it failed and follow every feasible path of the '
             'caller: the null result must not be dereferenced, and the caller must itself report failure.')
    fns = p.repo_fns(lambda f: f.file.startswith(SCOPE))

    def root(c):
        return c.callee in NEW
    fall = errflow.fallible(p, fns, root)
    makers = allocators(p, fall, root)
    ctx.count('functions that hand out what they allocate', len(makers))
    nalloc = 0
    und = []
    for f in fall.values():
        for c in f.calls():
            name = p.callee_name(c)
            if root(c):
                cls = flow.ZERO
                nalloc += 1
                name = 'allocation'
            else:
                ts = [t for t in p.targets(c) if t.name in fall]
                if not ts:
                    continue
                t = ts[0]
                if t.ret.endswith('*') or t.ret == 'bool' or t.ret.startswith('unsigned'):
                    cls = flow.ZERO
                elif t.ret in INT:
                    cls = flow.NEG
                else:
                    continue
            # a lookup that finds nothing also returns null: for those only the dereference is decided
            lookup = not root(c) and cls == flow.ZERO and ts[0].ret.endswith('*') and \
                not any(t.name in makers for t in ts)
            ex = NullEx(f)
            bad = None
            try:
                for kind, r, st, tr in ex.run(c, cls):
                    if ex.deref:
                        bad = 'dereferences the null result at %s' % ex.deref[0].loc
                        break
                    if kind != 'ret':
                        continue
                    v = ex.val(r.o[0], st) if r.o else None
                    if f.ret == 'void' or lookup:
                        ok = True
                    elif f.ret == 'bool' or f.ret.endswith('*') or f.ret.startswith('unsigned'):
                        ok = v == flow.ZERO
                    elif f.ret in INT:
                        ok = flow.subset(v, flow.NEG)
                    else:
                        ok = True
                    if not ok:
                        bad = 'can make %s return %s at %s' % (f.clean, v, r.loc)
                        break
                if ex.deref and not bad:
                    bad = 'dereferences the null result at %s' % ex.deref[0].loc
            except flow.TooMany as e:
                und.append(str(e))
            ctx.oblig(bad is None)
            ctx.sample('%s: %s fails in %s' % (c.loc, name, f.clean))
            if bad:
                ctx.report('%s<-%s' % (f.clean, name), c.loc, '%s failing in %s %s' % (name, f.clean, bad))
    ctx.need('allocations', nalloc, 40)
    ctx.undecided(und)
