"""C03: every status other than 'completed' from reader, callback or nested parser stops the parse and is returned."""
import re

import flow

# (caller, callee, code): end-of-file that is a legal end of the data
EOF_OK = {('webm::MasterParser::Feed', 'webm::IdParser::Feed'): 'end of file at an element boundary ends an element of unknown size',
          ('webm::WebmParser::DocumentParser::Feed', 'webm::IdParser::Feed'): 'end of file at an element boundary ends the document'}


def strip_t(s):
    prev = None
    while prev != s:
        prev, s = s, re.sub(r'<[^<>]*>', '', s)
    return s


class Consumed(flow.Explorer):
    """the call under study has consumed at least one byte (its last argument says how many)"""

    def step(self, i, st, given=None):
        r = flow.Explorer.step(self, i, st, given)
        if given is not None and i.op in ('call', 'invoke') and i.o:
            k = self.addrkey(i.o[-1], st)
            if k is not None:
                st['mem'][self.cell((k, 8), i.o[-1])] = ('iv', (1, None))
        return r


def at_position(p, f, tr):
    """does the path run through a test that the reader still stands at the position seen before?"""
    for b, n in zip(tr, tr[1:]):
        t = f.blocks[b][-1]
        if t.op != 'br' or not t.o or t.o[0][0] != 'i':
            continue
        st = [f.inst(t.o[0])]
        while st:
            i = st.pop()
            if i.op == 'icmp' and i.pred in ('eq', 'ne'):
                if any(o[0] == 'i' and f.inst(o).op in ('call', 'invoke') and
                       p.callee_name(f.inst(o)) == 'webm::Reader::Position' for o in i.o):
                    return True
            st += [f.inst(o) for o in i.o if o[0] == 'i' and i.op in ('and', 'or', 'xor', 'freeze', 'icmp', 'zext',
                                                                      'trunc', 'select', 'sub')]
    return False


def run(ctx):
    p = ctx.prog
    ctx.rule('For every call, in the incremental parser, of anything returning a status (reader, callback, nested '
             'parser, helper), assume each kind of unfinished/failed status in turn (partial, would-block, '
             'end-of-file, a parse error, an application-defined code) and follow every feasible path of the caller: '
             'the caller must return exactly that status (or a definite parse error; a partial result may be retried '
             'by calling the same operation again).')
    t = p.types.get('webm::Status::Code') or p.types.get('Code')
    codes = {m[1]: int(m[2]) for m in t['members'] if m[0] == 'enum'}
    need = ('kOkCompleted', 'kOkPartial', 'kWouldBlock', 'kEndOfFile', 'kInvalidElementSize')
    ctx.need('status codes', len([n for n in need if n in codes]), 5)
    ok0 = codes['kOkCompleted']
    classes = [('kOkPartial', codes['kOkPartial']), ('kWouldBlock', codes['kWouldBlock']),
               ('kEndOfFile', codes['kEndOfFile']), ('kInvalidElementSize', codes['kInvalidElementSize']),
               ('application code', 77)]
    fns = p.repo_fns(lambda f: f.file.startswith('webm_parser/') and '/demo/' not in f.file and f.ret == 'webm::Status')
    ctx.need('status-returning functions', len(fns), 60)

    def status_call(c):
        if c.ty != 'i32':
            return False
        ts = p.targets(c)
        if ts:
            return ts[0].repo and ts[0].ret == 'webm::Status'
        vm = p.vmethod(c) if not c.callee else None
        if vm:
            ty = p.types.get(vm[0])
            return any(m[0] == 'method' and m[1] == vm[1] and m[7] and m[7][0] == 'webm::Status' for m in ty['members'])
        return False
    und = []
    for f in fns:
        for c in f.calls():
            if not status_call(c):
                continue
            name = p.callee_name(c)
            ctx.count('call sites')
            for cname, code in classes:
                if cname == 'kEndOfFile' and (f.clean, name) in EOF_OK:
                    ctx.assume('%s: %s' % (f.clean, EOF_OK[(f.clean, name)]))
                    mk = Consumed        # at a boundary means with no byte of the next element consumed
                else:
                    mk = flow.Explorer

                def stop(i, st, ex):
                    return cname == 'kOkPartial' and i.op == 'call' and (i.id == c.id or p.callee_name(i) == name) \
                        and not (i.callee and i.callee.startswith('llvm.'))
                bad = None
                ex = mk(f)
                try:
                    for kind, r, st, tr in ex.run(c, (code, code), stop=stop):
                        if kind != 'ret':
                            continue
                        v = ex.val(r.o[0], st) if r.o else None
                        if v == (code, code) or (v and v[1] is not None and v[1] <= -1024):
                            continue
                        if mk is Consumed and at_position(p, f, tr):
                            continue
                        bad = v
                        break
                except flow.TooMany as e:
                    und.append(str(e))
                ctx.oblig(bad is None)
                if bad is not None:
                    ctx.report('%s<-%s' % (strip_t(f.clean), strip_t(name)), c.loc,
                               '%s returning %s can make %s return %s' % (name, cname, f.clean, bad))
            ctx.sample('%s: %s in %s' % (c.loc, strip_t(name), strip_t(f.clean)))
    # functions that do not return a status must not swallow one
    for f in p.repo_fns(lambda f: f.file.startswith('webm_parser/src') and f.ret != 'webm::Status'):
        for c in f.calls():
            if status_call(c):
                ctx.oblig(False)
                ctx.report('%s<-%s' % (strip_t(f.clean), strip_t(p.callee_name(c))), c.loc,
                           '%s obtains a status but cannot return it' % f.clean)
    ctx.need('status call sites', ctx.counts.get('call sites', 0), 100)
    if und:
        ctx.undecided(und)
