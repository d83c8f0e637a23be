"""C01: a failure reported by the application's reader surfaces from the mkvparser call in progress."""
import errflow
import flow

INT = ('int', 'long', 'long long')

# (function, callee) pairs where the failure is answered by something other than a failing return
# value, with the documented reason.  Matched on names, so the pair must still exist as such.
ANSWERED = {
    ('mkvparser::Segment::DoneParsing', 'mkvparser::IMkvReader::Length'):
        'a reader that cannot tell its length means nothing more can be parsed: reports done',
    ('mkvparser::SeekHead::Parse', 'mkvparser::SeekHead::ParseEntry'):
        'an unreadable Seek entry is advisory index data and is dropped',
}
# queries that compute a time stamp from loaded data; a negative value is an ordinary value to their callers
TIME_QUERIES = ('mkvparser::Block::GetTime', 'mkvparser::Block::GetTimeCode', 'mkvparser::Cluster::GetTime',
                'mkvparser::Cluster::GetTimeCode', 'mkvparser::Cluster::GetFirstTime',
                'mkvparser::Cluster::GetLastTime')


def run(ctx):
    p = ctx.prog
    ctx.rule('For every call of the reader interface and of every mkvparser function that (transitively) uses it, '
             'assume the call failed (negative; positive = underflow; false) and follow every feasible path of the '
             'caller in the interval domain: the value returned must be a failure (negative or passed-on underflow, '
             'false, null).')
    fns = p.repo_fns(lambda f: f.file.startswith('mkvparser/mkvparser'))

    def root(c):
        if c.callee:
            return None
        vm = p.vmethod(c)
        return vm[1] if vm and vm[0] == 'mkvparser::IMkvReader' and vm[1] in ('Read', 'Length') else None
    fall = errflow.fallible(p, fns, root)
    ctx.need('fallible functions', len(fall), 30)
    posfail = set()
    res = errflow.Result()

    def ok_for(f, cls):
        if f.ret == 'bool' or f.ret.endswith('*'):
            return lambda v: v == flow.ZERO
        if f.ret in INT:
            if cls == flow.POS:
                return lambda v: flow.subset(v, flow.NEG) or flow.subset(v, flow.POS)
            return lambda v: flow.subset(v, flow.NEG)
        return lambda v: False

    def wants_position(r, st, ex):
        # underflow answered with the (positive) position that has to become available: pos + constant
        v = ex.root(r.o[0], st)
        if v[0] != 'i':
            return False
        i = ex.fn.inst(v)
        return i.op == 'add' and i.o[1][0] == 'k' and int(i.o[1][1]) > 0
    done = set()
    changed = True
    nroot = 0
    while changed:
        changed = False
        for f in fall.values():
            for c in f.calls():
                r = root(c)
                name = p.callee_name(c)
                if r == 'Read':
                    classes = [flow.NEG, flow.POS]
                elif r:
                    classes = [flow.NEG]
                else:
                    ts = [t for t in p.targets(c) if t.name in fall]
                    if not ts or name in TIME_QUERIES:
                        continue
                    if ts[0].ret in INT:
                        classes = [flow.NEG] + ([flow.POS] if any(t.name in posfail for t in ts) else [])
                    elif ts[0].ret == 'bool':
                        classes = [flow.ZERO]
                    else:
                        continue
                if (f.clean, name) in ANSWERED:
                    if (f.name, c.id) not in done:
                        done.add((f.name, c.id))
                        ctx.count('answered otherwise')
                        ctx.assume('%s in %s: %s' % (name, f.clean, ANSWERED[(f.clean, name)]))
                    continue
                for cls in classes:
                    k = (f.name, c.id, cls)
                    if k in done:
                        continue
                    done.add(k)
                    if r:
                        nroot += 1
                    ok = errflow.check_site(p, f, c, cls, ok_for(f, cls), res, name,
                                            okx=wants_position if cls == flow.POS and f.ret in INT else None)
                    ctx.oblig(ok)
                    ctx.sample('%s: %s fails with %s in %s -> %s' % (c.loc, name, cls, f.clean, 'propagated' if ok else 'LOST'))
                    if not ok:
                        b = res.bad[-1]
                        ctx.report('%s<-%s' % (f.clean, name), c.loc,
                                   '%s failing (%s) can make %s return %s at %s' % (name, b['assumed'], f.clean, b['returns'], b['ret']),
                                   path=b['path'])
                    elif cls == flow.POS and f.ret in INT and f.name not in posfail:
                        for _, v, _, _, _ in flow.explore_returns(f, c, cls):
                            if v and flow.subset(v, flow.POS):
                                posfail.add(f.name)
                                changed = True
                                break
    ctx.need('reader call obligations', nroot, 10)
    ctx.count('functions that may report underflow as positive', len(posfail))
    if res.undecided:
        ctx.undecided(res.undecided)
    ctx.assume('time-stamp lookups on loaded clusters/blocks (%s) return negative values that callers compare as times; '
               'their callers are lookups, not parsing calls' % ', '.join(sorted(TIME_QUERIES)))
    ctx.assume('application code behind the reader interface does not modify parser objects')
