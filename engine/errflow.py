"""Failure-propagation analysis.

For every call site of a fallible operation, assume it failed (one abstract class of failing
results at a time), follow every feasible path to the returns of the calling function and
require the value returned there to be a failure of that function.  Summaries make it
interprocedural: a function that contains such a site is itself a fallible operation.
"""
import flow


class Result:
    def __init__(self):
        self.sites = 0
        self.obligations = 0
        self.functions = set()
        self.bad = []          # dicts
        self.undecided = []


def fallible(prog, fns, is_root):
    """functions of fns that (transitively) perform a root operation"""
    fall = {}
    calls = {f.name: [(c, prog.targets(c)) for c in f.calls()] for f in fns}
    for f in fns:
        if any(is_root(c) for c, _ in calls[f.name]):
            fall[f.name] = f
    ch = True
    while ch:
        ch = False
        for f in fns:
            if f.name in fall:
                continue
            if any(t.name in fall for _, ts in calls[f.name] for t in ts):
                fall[f.name] = f
                ch = True
    return fall


def check_site(prog, f, c, cls, ok, res, callee, okx=None, callmodel=None):
    res.obligations += 1
    bad = None
    try:
        kw = {}
        if callmodel:
            kw['callmodel'] = callmodel
        for r, v, st, tr, ex in flow.explore_returns(f, c, cls, **kw):
            if not (ok(v) or (okx and okx(r, st, ex))):
                path = []
                for b in tr:
                    for i in f.blocks[b]:
                        if i.op == 'br' and i.o or i.op == 'switch':
                            path.append(i.loc)
                bad = dict(function=f.clean, file=f.file, site=c.loc, callee=callee, assumed=str(cls),
                           returns=str(v), ret=r.loc, path=path[-12:], fn=f, inst=c)
                break
    except flow.TooMany as e:
        res.undecided.append('%s at %s: %s' % (f.clean, c.loc, e))
    if bad:
        res.bad.append(bad)
    return bad is None
