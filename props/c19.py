"""C19: the libraries keep no mutable state outside the objects the application creates."""
import re

import ir

SCOPE = ('mkvparser/', 'mkvmuxer/', 'common/', 'webm_parser/src/', 'webm_parser/include/', 'webvtt/', 'm2ts/')
# C library functions that keep hidden process-wide state
STATEFUL = {'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'srand48', 'strtok', 'localtime',
            'gmtime', 'asctime', 'ctime', 'setlocale', 'putenv', 'setenv', 'unsetenv', 'tmpnam', 'tempnam', 'signal',
            'sigaction', 'atexit', 'strsignal', 'strerror', 'readdir', 'getopt', 'ecvt', 'fcvt', 'gcvt', 'crypt',
            'mblen', 'mbtowc', 'wctomb', 'mbrlen', 'umask', 'chdir', 'alarm', 'setvbuf_global', 'freopen',
            'getpwnam', 'getpwuid', 'basename', 'dirname', 'l64a', 'ptsname', 'ttyname'}


def _under_guard(f, i):
    return any(c.callee == '__cxa_guard_acquire' and f.inst_dominates(c, i) for c in f.all()
               if c.op in ('call', 'invoke'))


def _first_use_inputs(f, T, v, consts, seen):
    """Construct(s) outside the function that the value v is computed from, or None."""
    if v[0] == 'a':
        return 'an argument of the call'
    if v[0] == 'g':
        return None if v[1] in consts or v[1] not in f.prog.globals else 'the shared variable %s' % v[1]
    if v[0] != 'i' or v in seen:
        return None
    seen.add(v)
    i = f.inst(v)
    if i.op == 'alloca':
        for k in f.all():
            if k.op == 'store' and T.split(k.o[1])[0] == v or k.op in ('call', 'invoke') and \
                    any(o[0] == 'i' and T.split(o)[0] == v for o in k.o):
                for o in k.o:
                    r = _first_use_inputs(f, T, o, consts, seen)
                    if r:
                        return r
        return None
    for o in list(i.o) + [x for x, _ in i.phi]:
        r = _first_use_inputs(f, T, o, consts, seen)
        if r:
            return r
    return None


def run(ctx):
    p = ctx.prog
    ctx.rule('No variable with static or thread storage defined by the library sources may be writable (constants, '
             'including const objects initialised at start-up, are allowed), no library function may store to one, '
             'and none may call a C library function that keeps hidden process-wide state.')
    n = 0
    for g in p.globals.values():
        if g.get('decl'):
            continue
        f = g.get('file')
        nm = g['dem']
        if g['name'].startswith('_ZGV'):
            continue          # guard of a function-local static: judged with the static itself
        if f is None or not f.startswith(SCOPE):
            continue
        n += 1
        dty = g.get('dty', '')
        const = g['const'] or re.match(r'const ', dty) or dty.endswith('*const')
        if dty.startswith('const ') and dty.endswith('*') and not g['const']:
            const = False     # pointer to const that is itself writable
        ok = bool(const) and not g['tls']
        ctx.oblig(ok)
        ctx.sample('%s:%s %s : %s' % (f, g.get('line'), nm, 'constant' if ok else 'WRITABLE'))
        if not ok:
            ctx.report('global:%s' % nm, '%s:%s' % (f, g.get('line')),
                       'variable %s (%s) is writable state shared by all objects' % (nm, dty))
    ctx.need('library variables with static storage', n, 20)
    fns = p.repo_fns(lambda f: f.file.startswith(SCOPE))
    ctx.need('library functions', len(fns), 500)
    for f in fns:
        T = ir.terms(f)
        for i in f.all():
            tgt = None
            if i.op == 'store':
                tgt = i.o[1]
            elif i.op in ('call', 'invoke') and i.callee and i.callee.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
                tgt = i.o[0]
            elif i.op in ('cmpxchg', 'atomicrmw'):
                tgt = i.o[0]
            if tgt is not None:
                b = T.split(tgt)[0]
                if b[0] == 'g':
                    g = p.globals.get(b[1], {})
                    # the one-time initialisation of a const object is allowed
                    if re.match(r'const ', g.get('dty', '')) and not g.get('dty', '').endswith('*') and \
                            (_under_guard(f, i) or f.artificial or 'global_var_init' in f.name or '_GLOBAL_' in f.name):
                        continue
                    if g.get('name', '').startswith('_ZGV') or not g.get('file'):
                        continue
                    ctx.oblig(False)
                    ctx.report('store:%s:%s' % (f.clean, b[1]), i.loc, '%s writes to the shared variable %s' % (f.clean, b[1]))
            if i.op in ('call', 'invoke') and i.callee in STATEFUL:
                ctx.oblig(False)
                ctx.report('call:%s:%s' % (f.clean, i.callee), i.loc,
                           '%s calls %s, which keeps process-wide state' % (f.clean, i.callee))
        ctx.oblig(True)
    # a constant local static set up on first use must not be computed from the call that comes first
    guards = {g[4:] for g in p.globals if g.startswith('_ZGV')}
    guarded = {g for g in p.globals if g.startswith('_Z') and g[2:] in guards and
               (p.globals[g].get('file') or '').startswith(SCOPE)}
    consts = {g for g, d in p.globals.items() if d.get('const') or d.get('dty', '').startswith('const ')}
    ctx.count('function-local statics set up on first use', len(guarded))
    for f in fns if guarded else []:
        T = ir.terms(f)
        for i in f.all():
            if i.op not in ('store', 'call', 'invoke') or i.callee == '__cxa_atexit' or not _under_guard(f, i):
                continue
            for g in {T.split(o)[0][1] for o in i.o if o[0] in 'ig' and T.split(o)[0][0] == 'g'} & guarded:
                if i.op == 'store' and T.split(i.o[1])[0][1:] != (g,):
                    continue
                for o in i.o:
                    b = T.split(o)[0] if o[0] in 'ig' else o
                    if b[0] == 'g' and b[1] == g:
                        continue
                    why = _first_use_inputs(f, T, o, consts, set())
                    ctx.oblig(not why)
                    if why:
                        ctx.report('first:%s' % g, i.loc, '%s sets the shared constant %s once, from %s of whichever '
                                   'object comes first' % (f.clean, g, why))
    ctx.assume('the POSIX configuration is analysed; the _WIN32 and __ANDROID__ branches are not')
    ctx.assume('stdio streams are internally locked; each object uses its own reader or writer')
