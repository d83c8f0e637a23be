"""Runs one property check: build, analyse, report, write evidence."""
import importlib
import json
import os
import re
import shutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'props'))
import build  # noqa: E402
import ir  # noqa: E402

KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Ctx:
    def __init__(self, prop, tier, prog, srcs):
        self.prop, self.tier, self.prog, self.srcs = prop, tier, prog, srcs
        self.findings = []
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.obligations = 0
        self.discharged = 0
        self.undec = []

    def rule(self, text):
        self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def oblig(self, ok=True, n=1):
        self.obligations += n
        if ok:
            self.discharged += n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def report(self, key, where, what, **detail):
        """a violation; key identifies it independent of line numbers"""
        self.findings.append(dict(key=key, where=where, what=what, detail=detail))

    def undecided(self, items):
        """obligations the analysis gave up on: neither discharged nor a violation; stated in the evidence"""
        items = list(items)
        self.undec += items
        self.discharged -= len(items)

    def need(self, name, n, minimum=1):
        """instance-count guard: an analysis that lost its instances gives no verdict"""
        self.counts[name] = n
        if n < minimum:
            raise ir.AnchorError('%s: found %d, expected at least %d' % (name, n, minimum))


def known_for(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) key="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    ev = os.path.join(evdir, prop + '.json')
    rep = os.path.join(evdir, 'replay-' + prop + '.json')
    for p in (ev, rep):
        if os.path.exists(p):
            os.unlink(p)
    try:
        path, srcs = build.program_json()
        prog = ir.Program(path)
        ctx = Ctx(prop, tier, prog, srcs)
        mod = importlib.import_module(prop.lower())
        mod.run(ctx)
    except (ir.AnchorError, build.BuildError) as e:
        print('CHECK-ERROR property=%s %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc(limit=-5)
        print('CHECK-ERROR property=%s internal error' % prop)
        return 2
    known = known_for(prop)
    new, old = [], []
    seen = set()
    for f in ctx.findings:
        if (f['key'], f['where']) in seen:
            continue
        seen.add((f['key'], f['where']))
        (old if f['key'] in known else new).append(f)
    for k in dict.fromkeys(f['key'] for f in old):
        print('KNOWN-FINDING: property=%s %s [%s]' % (prop, known[k], k))
    cov = dict(explanation=' '.join(ctx.rules), obligations=ctx.obligations, discharged=ctx.discharged,
               translation_units=len(ctx.srcs), repo_functions=len(prog.repo_fns()),
               inlined_unknown_helpers=len(prog.inlined), counts=ctx.counts, samples=ctx.samples,
               undecided=[str(u) for u in ctx.undec],
               known_findings=[f['key'] for f in old])
    json.dump(dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov, assumptions=ctx.assumptions,
                   wall_s=round(time.time() - t0, 2), violations=len(new)), open(ev, 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d violations, %d known; %s' % (
        prop, ctx.obligations, ctx.discharged, len(new), len(old),
        ', '.join('%s=%s' % kv for kv in ctx.counts.items())))
    for u in ctx.undec:
        print('  undecided: %s' % (u,))
    if new:
        json.dump(dict(property=prop, rule=ctx.rules, violations=new), open(rep, 'w'), indent=1, default=str)
        for f in new:
            print('  %s: %s  {%s}' % (f['where'], f['what'], f['key']))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
