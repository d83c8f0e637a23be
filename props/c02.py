"""C02: a failure reported by the application's writer surfaces from the muxer call in progress."""
import errflow
import flow

INT = ('int', 'long', 'long long')


def run(ctx):
    p = ctx.prog
    ctx.rule('For every call of the writer interface (and of the reader a finished file is copied from) and of every '
             'muxer function that transitively uses it, assume the call failed (any non-zero status, false, zero '
             'bytes written) and follow every feasible path of the caller in the interval domain: the value returned '
             'must be a failure of the caller.')
    fns = p.repo_fns(lambda f: f.file.startswith('mkvmuxer/mkvmuxer'))

    def root(c):
        if c.callee:
            return None
        vm = p.vmethod(c)
        if not vm or c.ty != 'i32':
            return None
        if vm[0] == 'mkvmuxer::IMkvWriter' and vm[1] in ('Write', 'Position'):
            return vm[1]
        if vm[0] == 'mkvparser::IMkvReader' and vm[1] == 'Read':
            return vm[1]
        return None
    fall = errflow.fallible(p, fns, root)
    ctx.need('fallible functions', len(fall), 25)
    res = errflow.Result()
    posfail = set()

    def ok_for(f, cls):
        if f.ret == 'bool' or f.ret.endswith('*') or f.ret.startswith('unsigned'):
            return lambda v: v == flow.ZERO
        if f.ret in INT:
            return lambda v: flow.subset(v, flow.NEG) or (cls != flow.NEG and flow.subset(v, flow.POS))
        return lambda v: False
    nroot = 0
    done = set()
    changed = True
    while changed:
        changed = False
        for f in fall.values():
            for c in f.calls():
                name = p.callee_name(c)
                r = root(c)
                if r:
                    classes = [flow.NEG, flow.POS]
                else:
                    ts = [t for t in p.targets(c) if t.name in fall]
                    if not ts:
                        continue
                    t = ts[0]
                    # size computation mode: called with no writer, nothing can fail
                    wa = [n for n, ty in enumerate(t.ptypes) if ty.replace('const ', '') == 'mkvmuxer::IMkvWriter*']
                    if wa and all(c.o[n] == ('n',) for n in wa if n < len(c.o)):
                        ctx.count('size-only calls (null writer)') if (f.name, c.id, 0) not in done else None
                        done.add((f.name, c.id, 0))
                        continue
                    if t.ret in INT:
                        classes = [flow.NEG] + ([flow.POS] if any(t.name in posfail for t in ts) else [])
                    elif t.ret == 'void':
                        ctx.report('%s:void' % t.clean, '%s:%d' % (t.file, t.line),
                                   '%s performs writes but has no way to report their failure' % t.clean)
                        continue
                    else:
                        classes = [flow.ZERO]
                for cls in classes:
                    k = (f.name, c.id, cls)
                    if k in done:
                        continue
                    done.add(k)
                    nroot += bool(r)
                    ok = errflow.check_site(p, f, c, cls, ok_for(f, cls), res, name)
                    ctx.oblig(ok)
                    ctx.sample('%s: %s fails with %s in %s -> %s' % (c.loc, name, cls, f.clean, 'propagated' if ok else 'LOST'))
                    if not ok:
                        b = res.bad[-1]
                        ctx.report('%s<-%s' % (f.clean, name), c.loc, '%s failing (%s) can make %s return %s at %s' % (
                            name, b['assumed'], f.clean, b['returns'], b['ret']), path=b['path'])
                    elif cls != flow.NEG and f.ret in INT and f.name not in posfail:
                        for _, v, _, _, _ in flow.explore_returns(f, c, cls):
                            if v and flow.subset(v, flow.POS):
                                posfail.add(f.name)
                                changed = True
                                break
    ctx.need('writer call obligations', nroot, 10)
    if res.undecided:
        ctx.undecided(res.undecided)
    ctx.assume('application code behind the writer interface does not modify muxer objects')
    ctx.assume('the writer\'s current-position query (64-bit result) is not treated as fallible')
