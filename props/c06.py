"""C06: both id tables name every element by its registered EBML id, consistently."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec'))
import schema  # noqa: E402


def valid_id(v):
    """the marker bit of an EBML id announces its own length and the value is not reserved"""
    for n in range(1, 5):
        m = 1 << (7 * n)
        if m <= v < 2 * m:
            return v - m != m - 1
    return False


def run(ctx):
    p = ctx.prog
    ctx.rule('Every enumerator of the two element-id enumerations (webm_parser\'s and the muxer/parser\'s) whose name is '
             'in the Matroska element table must have the id of that table; every enumerator must be a well-formed '
             'EBML id (length marker agrees with its size), and no two enumerators of one enumeration share a value; '
             'an element named by both enumerations has one value.')
    spec = schema.ids()
    tables = {}
    for ty, pre in (('webm::Id', 'k'), ('libwebm::MkvId', 'kMkv')):
        t = p.types.get(ty)
        es = [m for m in t['members'] if m[0] == 'enum'] if t else []
        tables[ty] = {}
        ctx.need('enumerators of ' + ty, len(es), 60)
        vals = {}
        for m in es:
            name = m[1][len(pre):] if m[1].startswith(pre) else m[1]
            v = int(m[2]) & 0xffffffff
            n = schema.norm(name)
            tables[ty][n] = v
            bad = []
            if n in spec and spec[n] != v:
                bad.append('is 0x%X, the registered id is 0x%X' % (v, spec[n]))
            if not valid_id(v):
                bad.append('0x%X is not a well-formed EBML id' % v)
            if v in vals:
                bad.append('shares 0x%X with %s' % (v, vals[v]))
            vals[v] = m[1]
            ctx.oblig(not bad)
            for b in bad:
                ctx.report('id:%s:%s' % (ty, m[1]), ty, '%s::%s %s' % (ty, m[1], b))
            if n in spec:
                ctx.count('ids compared with the element table')
        ctx.sample('%s: %d enumerators' % (ty, len(es)))
    a, b = tables['webm::Id'], tables['libwebm::MkvId']
    for n in sorted(set(a) & set(b)):
        ctx.oblig(a[n] == b[n])
        if a[n] != b[n]:
            ctx.report('ids-differ:%s' % n, 'webm::Id / libwebm::MkvId', 'the two tables disagree on %s: 0x%X and 0x%X' % (
                n, a[n], b[n]))
    missing = [n for n in spec if n not in a and n not in b]
    for n in missing:
        ctx.assume('element %s is named by neither table' % n)
