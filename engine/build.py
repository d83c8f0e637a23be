"""Compile /repo's current working tree to LLVM bitcode and dump the program as JSON."""
import concurrent.futures
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
FLAGS = ['-std=c++11', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fstandalone-debug', '-DNDEBUG',
         '-fno-exceptions', '-flto', '-fvisibility=hidden', '-fwhole-program-vtables', '-w']


class BuildError(Exception):
    pass


def tool(name):
    for n in (name + '-18', name):
        p = shutil.which(n)
        if p:
            return p
    raise BuildError('tool %s not found' % name)


def irdump():
    """path of the dumper, (re)built from engine/irdump.cpp when needed"""
    src = os.path.join(VERIF, 'engine', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'irdump-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    cfg = tool('llvm-config')
    cxx = subprocess.check_output([cfg, '--cxxflags'], text=True).split()
    ld = subprocess.check_output([cfg, '--ldflags'], text=True).split()
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run([tool('clang++'), '-O1'] + cxx + ['-fno-rtti', '-w', '-o', tmp, src] + ld + ['-lLLVM-18'],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError('irdump does not build:\n' + r.stderr[-3000:])
    os.rename(tmp, out)
    return out


def sources():
    """translation units of the library and its tools (test code excluded), relative to REPO"""
    pats = ['*.cc', 'common/*.cc', 'mkvmuxer/*.cc', 'mkvparser/*.cc', 'webvtt/*.cc', 'm2ts/*.cc',
            'webm_parser/src/*.cc', 'webm_parser/demo/*.cc']
    out = []
    for p in pats:
        for f in glob.glob(os.path.join(REPO, p)):
            b = os.path.basename(f)
            if b.endswith('_test.cc') or b.endswith('_tests.cc') or 'fuzzer' in b:
                continue
            out.append(os.path.relpath(f, REPO))
    if not out:
        raise BuildError('no sources found under ' + REPO)
    return sorted(out)


def tree_hash(extra):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', '_build', 'build') and not d.startswith('_'))
        for f in sorted(files):
            if f.endswith(('.cc', '.h', '.c', '.cpp', '.hpp', '.inc')):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode())
                h.update(open(p, 'rb').read())
    for e in extra:
        h.update(open(e, 'rb').read())
    h.update(' '.join(FLAGS).encode())
    return h.hexdigest()[:24]


def compile_one(args):
    src, out = args
    b = os.path.basename(src)[:-3]
    cmd = [tool('clang++')] + FLAGS + ['-I' + REPO, '-I' + REPO + '/webm_parser', '-I' + REPO + '/webm_parser/include',
                                       '-Dmain=main_' + ''.join(c if c.isalnum() else '_' for c in b),
                                       '-c', os.path.join(REPO, src), '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return src, r.returncode, r.stderr


def program_json(known=True):
    d = irdump()
    kf = os.path.join(VERIF, 'engine', 'known_functions.txt')
    extra = [os.path.join(VERIF, 'engine', 'irdump.cpp'), os.path.join(VERIF, 'engine', 'build.py')]
    if known:
        extra.append(kf)
    h = tree_hash(extra)
    cache = os.path.join(BUILD, 'cache')
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, h + ('.json' if known else '.raw.json'))
    srcs = sources()
    if os.path.exists(out):
        return out, srcs
    tmp = tempfile.mkdtemp(prefix='webmverif.')
    try:
        jobs = [(s, os.path.join(tmp, s.replace('/', '_') + '.bc')) for s in srcs]
        # biggest first
        jobs.sort(key=lambda j: -os.path.getsize(os.path.join(REPO, j[0])))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for src, rc, err in ex.map(compile_one, jobs):
                if rc:
                    raise BuildError('%s does not compile:\n%s' % (src, err[-3000:]))
        t = out + '.%d.tmp' % os.getpid()
        r = subprocess.run([d, REPO, kf if known else '-', t] + [j[1] for j in sorted(jobs)], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('irdump failed:\n' + r.stderr[-3000:])
        os.rename(t, out)
        # keep the cache small
        old = sorted(glob.glob(os.path.join(cache, '*.json')), key=os.path.getmtime)
        for o in old[:-6]:
            try:
                os.unlink(o)
            except OSError:
                pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out, srcs


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--update-known':
        import json
        p, _ = program_json(known=False)
        d = json.load(open(p))
        names = sorted(set(d['all_functions']))
        open(os.path.join(VERIF, 'engine', 'known_functions.txt'), 'w').write('\n'.join(names) + '\n')
        print(len(names), 'functions')
    else:
        irdump()
        print('irdump ready')
