"""Interprocedural MOD summaries: which fields / pointer parameters a function may write."""
import ir

PURE = ('::operator->', '::operator*', '::get', '::size', '::empty', '::begin', '::end', '::data',
        '::operator bool', '::c_str', '::cbegin', '::cend', '::max', '::length', '::operator==', '::operator!=',
        '::back', '::front', '::_M_ptr', '::capacity', '::find', '::count', '::__get_deleter', '::min')
PURE_C = {'strlen', 'memcmp', 'strcmp', 'strncmp', 'feof', 'ferror', 'floor', 'ceil', 'abs', '_ZdlPv', '_ZdaPv',
          '_ZdlPvm', '_ZdaPvm', 'time', 'rand', 'getenv', '_Znwm', '_Znam', 'malloc', 'free'}


def is_pure_ext(prog, callee):
    """external (library) function that writes nothing observable"""
    if callee in PURE_C or callee.startswith('_Znwm') or callee.startswith('_Znam'):
        return True
    f = prog.fn.get(callee)
    if f is None or f.repo:
        return False
    c = f.clean
    base = c
    # strip template args of the last component
    d = 0
    out = []
    for ch in c:
        if ch == '<' and not (out[-8:] == list('operator')):
            d += 1
        elif ch == '>' and d:
            d -= 1
        elif d == 0:
            out.append(ch)
    base = ''.join(out)
    return any(base.endswith(p) for p in PURE) and base.startswith('std::') or base.startswith('__gnu_cxx::') and \
        any(base.endswith(p) for p in PURE)


def fieldkey(fn, addr, depth=0):
    """classify an address operand inside fn: ('L',id) local, ('f',owner,name), ('p',n), ('g',name), '*'"""
    T = ir.terms(fn)
    base, off, var = T.split(addr)
    if base[0] == 'i' and fn.inst(base).op == 'alloca':
        return ('L', base[1])
    if base[0] == 'g':
        return ('g', base[1])
    m = T.member(addr)
    if m[2]:
        return ('f', m[2], [n for n in m[1] if not n.startswith('+')][-1])
    if base[0] == 'a':
        return ('p', base[1])
    if base[0] == 'i':
        i = fn.inst(base)
        if i.op == 'load':
            k = fieldkey(fn, i.o[0])
            if k[0] == 'f':
                return ('d', k[1], k[2])      # memory pointed to by that field (buffer)
            if k[0] == 'p':
                return ('pd', k[1])
        if i.op in ('call', 'invoke'):
            nm = fn.prog.callee_name(i)
            if i.callee and (i.callee.startswith('_Znam') or i.callee.startswith('_Znwm') or i.callee == 'malloc'):
                return ('L', i.id)
            return ('c', nm)
        if i.op in ('phi', 'select'):
            if depth < 6:
                ks = set()
                for x in ([v for v, _ in i.phi] if i.op == 'phi' else i.o[1:]):
                    b2, _, _ = T.split(x)
                    if b2 == base or x[0] in ('n', 'u'):
                        continue
                    k = fieldkey(fn, x, depth + 1)
                    if k[0] == 'phi':
                        continue
                    ks.add(k)
                if len(ks) == 1:
                    return ks.pop()
            return ('phi', i.id)
    return '*'


def isptr(fn, v):
    if v[0] == 'i':
        return fn.inst(v).ty == 'ptr'
    if v[0] == 'a':
        return fn.atypes[v[1]] == 'ptr'
    return v[0] in ('g', 'ge')


def argkey(fn, a):
    if not isptr(fn, a):
        return None
    k = fieldkey(fn, a)
    if k[0] == 'f' and k[2].startswith('_vptr'):
        return ('o', k[1])
    return k


def direct(fn):
    out = set()
    for i in fn.all():
        if i.op == 'store':
            k = fieldkey(fn, i.o[1])
            if k[0] not in ('L',) and not (k[0] == 'f' and k[2].startswith('_vptr')):
                out.add(k)
    return out


def summaries(prog):
    if hasattr(prog, '_mod'):
        return prog._mod
    fns = [f for f in prog.fn.values() if f.repo]
    S = {f.name: direct(f) for f in fns}
    sites = {}
    for f in fns:
        L = []
        for c in f.calls():
            ts = prog.targets(c)
            args = [argkey(f, a) for a in c.o]
            virt = not c.callee
            if not ts or not all(t.repo for t in ts) or not c.callee:
                # external / virtual: writes through its pointer args
                ext = [t for t in ts if not t.repo]
                if c.callee and is_pure_ext(prog, c.callee):
                    pass
                elif not ts or ext or not c.callee:
                    for n, a in enumerate(args):
                        if virt and n == 0:
                            continue
                        if a is not None and a[0] != 'L' and c.o[n][0] != 'k':
                            # only if the arg is a pointer value
                            S[f.name].add(a)
            L.append((args, [t.name for t in ts if t.repo]))
        sites[f.name] = L
    ch = True
    while ch:
        ch = False
        for f in fns:
            s = S[f.name]
            n0 = len(s)
            for args, ts in sites[f.name]:
                for t in ts:
                    for k in list(S[t]):
                        if k[0] in ('p', 'pd'):
                            if k[1] < len(args):
                                a = args[k[1]]
                                if a is None or a[0] == 'L':
                                    continue
                                if k[0] == 'pd':
                                    a = ('d', a[1], a[2]) if a[0] == 'f' else a
                                s.add(a)
                        elif k[0] == 'phi':
                            s.add('*')
                        else:
                            s.add(k)
            if len(s) != n0:
                ch = True
    prog._mod = S
    return S


def call_writes(prog, fn, c):
    """(set of keys, set of local alloca ids, star) a call instruction may write, in terms of fn"""
    cache = fn._cache.setdefault('cw', {})
    if c.id in cache:
        return cache[c.id]
    S = summaries(prog)
    keys, locs = set(), set()
    ts = prog.targets(c)
    args = [argkey(fn, a) for a in c.o]
    virt = not c.callee
    rep = [t for t in ts if t.repo]
    if (not ts or any(not t.repo for t in ts) or virt) and not (c.callee and is_pure_ext(prog, c.callee)):
        for n, a in enumerate(args):
            if a is None or (virt and n == 0):
                continue
            if a[0] == 'L':
                locs.add(a[1])
            else:
                keys.add(a)
    for t in rep:
        for k in S[t.name]:
            if k[0] in ('p', 'pd'):
                if k[1] < len(args) and args[k[1]] is not None:
                    a = args[k[1]]
                    if a[0] == 'L':
                        locs.add(a[1])
                    elif k[0] == 'pd' and a[0] == 'f':
                        keys.add(('d', a[1], a[2]))
                    else:
                        keys.add(a)
            elif k[0] == 'f':
                keys.add(k)
                for n, a in enumerate(args):
                    if a is not None and a[0] == 'L':
                        i = fn.insts[a[1]]
                        vt = prog.strip(i.vty) if i.vty else None
                        if vt is None or vt == k[1] or vt in prog.types and (k[1] in prog.all_bases(vt) or nested(prog, vt, k[1])):
                            locs.add(a[1])
            else:
                keys.add(k if k[0] != 'phi' else '*')
    cache[c.id] = (keys, locs)
    return cache[c.id]


def nested(prog, t, owner, depth=0):
    if depth > 4:
        return True
    for m in prog.fields(t):
        ft = m[4]
        if ft == owner:
            return True
        if ft in prog.types and nested(prog, ft, owner, depth + 1):
            return True
    return False
