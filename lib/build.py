"""Builds instrumented variants of /repo's current working tree under /verif/build.

The compile is content addressed: an object is named by the hash of its source, all headers,
and the flags, so a changed tree is always rebuilt and an unchanged one is reused.
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

GUARD = 'VERIF_MONITOR'

VARIANTS = {
    # production-like: what users run
    'plain': ('gcc', ['-O2', '-g']),
    # address + undefined behaviour
    'asan': ('clang', ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                       '-fno-sanitize=alignment,function',
                       '-fno-sanitize-recover=all']),
    # uninitialised reads
    'msan': ('clang', ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=memory',
                       '-fsanitize-memory-track-origins=1']),
    # coverage-guided fuzzing objects
    'fuzz': ('clang', ['-O1', '-g', '-fno-omit-frame-pointer',
                       '-fsanitize=fuzzer-no-link,address,undefined',
                       '-fno-sanitize=alignment,function', '-fno-sanitize-recover=all']),
}
COMMON_FLAGS = ['-std=gnu17', '-w', '-DHAVE_CONFIG_H', '-D' + GUARD]


class BuildError(Exception):
    pass


def sha(data):
    return hashlib.sha256(data).hexdigest()


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def _am_vars(path):
    txt = re.sub(r'\\\n', ' ', open(path).read())
    out = {}
    for line in txt.splitlines():
        m = re.match(r'^\s*([A-Za-z0-9_]+)\s*\+?=\s*(.*)$', line)
        if m and not line.startswith('#'):
            out.setdefault(m.group(1), []).append(m.group(2))
    return {k: ' '.join(v) for k, v in out.items()}


def _expand(v, vs, depth=0):
    if depth > 8:
        return v
    return re.sub(r'\$[({]([A-Za-z0-9_]+)[)}]', lambda m: _expand(vs.get(m.group(1), ''), vs, depth + 1), v)


def source_lists():
    """component -> list of source paths relative to REPO/src, read from the Makefile.am files"""
    res = {}
    top = _am_vars(os.path.join(REPO, 'src/Makefile.am'))
    for prog in ('pomdp-solve', 'pomdp-tools', 'pomdp-fg'):
        key = prog.replace('-', '_') + '_SOURCES'
        toks = _expand(top.get(key, ''), top).split()
        res[prog] = sorted({t for t in toks if t.endswith('.c')})
    for d, lib in (('mdp', 'libmdp_a'), ('lp-solve', 'liblpk_a'), ('laspack', 'liblaspack_a')):
        vs = _am_vars(os.path.join(REPO, 'src', d, 'Makefile.am'))
        toks = _expand(vs.get(lib + '_SOURCES', ''), vs).split()
        srcs = set()
        for t in toks:
            if t.endswith(('.c', '.y', '.l')):
                srcs.add(d + '/' + t)
        res[d] = sorted(srcs)
    return res


_baseline = None


def _changed(rel):
    """True when REPO/rel is not as in the pinned commit"""
    global _baseline
    if _baseline is None:
        _baseline = {}
        try:
            for line in open(os.path.join(VERIF, 'lib', 'generated.sha256')):
                h, f = line.split()
                _baseline[f] = h
        except OSError:
            pass
    p = os.path.join(REPO, rel)
    if not os.path.exists(p):
        return _baseline.get(rel) is not None
    return sha(_read(p)) != _baseline.get(rel)


GEN = {
    'src/mdp/parser.y': ('bison', ['src/mdp/parser.c', 'src/mdp/parser.h']),
    'src/mdp/scanner.l': ('flex', ['src/mdp/scanner.c']),
    'src/lp-solve/lp.y': ('bison', ['src/lp-solve/lp.c', 'src/lp-solve/lp.h']),
    'src/lp-solve/lex.l': ('flex', ['src/lp-solve/lex.c']),
}


def stage():
    """copy of REPO/src, with the grammars regenerated when only they were edited"""
    files = {}
    for root, dirs, names in os.walk(os.path.join(REPO, 'src')):
        dirs[:] = [d for d in dirs if not d.startswith('.')]
        for n in names:
            if n.endswith(('.c', '.h', '.y', '.l')):
                p = os.path.join(root, n)
                files[os.path.relpath(p, REPO)] = _read(p)
    regen = []
    for src, (tool, outs) in GEN.items():
        if src in files and (_changed(src) and not any(_changed(o) for o in outs)
                             or any(o not in files for o in outs)):
            regen.append(src)
    for n in ('double-vector-test.c', 'index-list-test.c'):
        pass
    h = hashlib.sha256()
    for k in sorted(files):
        h.update(k.encode() + b'\0' + sha(files[k]).encode())
    h.update(repr(regen).encode())
    h.update(_read(os.path.join(VERIF, 'lib', 'config.h')))
    key = h.hexdigest()[:16]
    tree = os.path.join(BUILD, 'tree-' + key)
    if not os.path.exists(os.path.join(tree, '.ok')):
        shutil.rmtree(tree, ignore_errors=True)
        for k, data in files.items():
            p = os.path.join(tree, k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(data)
        shutil.copy(os.path.join(VERIF, 'lib', 'config.h'), os.path.join(tree, 'config.h'))
        for src in regen:
            tool, outs = GEN[src]
            d, b = os.path.split(os.path.join(tree, src))
            if tool == 'bison':
                base = os.path.basename(outs[0])
                r = subprocess.run(['bison', '-y', '-d', '-o', base, b], cwd=d, capture_output=True, text=True)
            else:
                r = subprocess.run(['flex', '-o', os.path.basename(outs[0]), b], cwd=d, capture_output=True, text=True)
            if r.returncode:
                raise BuildError(f'{tool} {src}: {r.stderr}')
        open(os.path.join(tree, '.ok'), 'w').write(key)
        # keep only the most recent stages
        trees = sorted(glob.glob(os.path.join(BUILD, 'tree-*')), key=os.path.getmtime)
        for t in trees[:-4]:
            shutil.rmtree(t, ignore_errors=True)
    return tree, key


def _compile(args):
    cc, flags, src, obj, cwd = args
    if os.path.exists(obj):
        os.utime(obj)
        return None
    tmp = obj + '.%d.tmp' % os.getpid()
    r = subprocess.run([cc] + flags + ['-c', src, '-o', tmp], cwd=cwd, capture_output=True, text=True)
    if r.returncode:
        return f'{src}: {r.stderr[-2000:]}'
    os.replace(tmp, obj)
    return None


def build(variant, prog, extra_src=(), drop=(), out=None, defines=(), link=(), per_src_defines=None, all_srcs=None):
    """Builds program `prog` (pomdp-solve, pomdp-tools, pomdp-fg) of the current tree in `variant`.

    extra_src: absolute paths of harness sources; drop: repo sources left out (such as main.c).
    Returns the path of the executable."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(variant, prog, extra_src, drop, out, defines, link, all_srcs)


def _build(variant, prog, extra_src, drop, out, defines, link, all_srcs):
    cc, vflags = VARIANTS[variant]
    tree, key = stage()
    lists = source_lists()
    srcs = list(all_srcs) if all_srcs is not None else list(lists[prog])
    libs = {}
    for d in ('mdp', 'lp-solve', 'laspack'):
        libs[d] = sorted({s[:-2] + '.c' for s in lists[d]})
        srcs += libs[d]
    srcs = sorted(set(srcs) - set(drop))
    libof = {s: d for d in libs for s in libs[d]}
    libobjs = {d: [] for d in libs}
    src = os.path.join(tree, 'src')
    inc = ['-I' + tree, '-I' + src, '-I' + src + '/mdp', '-I' + src + '/lp-solve', '-I' + src + '/laspack']
    hdrs = hashlib.sha256()
    for root, dirs, names in sorted(os.walk(tree)):
        for n in sorted(names):
            if n.endswith('.h'):
                hdrs.update(n.encode() + _read(os.path.join(root, n)))
    hdrs = hdrs.hexdigest()
    flags = vflags + COMMON_FLAGS + ['-D' + d for d in defines] + ['-ffile-prefix-map=%s/=' % tree]
    odir = os.path.join(BUILD, 'obj')
    os.makedirs(odir, exist_ok=True)
    jobs, objs = [], []
    for s in srcs:
        p = os.path.join(src, s)
        k = sha((hdrs + repr((cc, flags)) + s).encode() + _read(p))[:24]
        o = os.path.join(odir, k + '.o')
        sub = os.path.dirname(p)
        if s in libof:
            jobs.append((cc, flags + ['-I' + sub, '-I' + tree, '-I' + src], p, o, sub))
            libobjs[libof[s]].append(o)
        else:
            jobs.append((cc, flags + inc, p, o, sub))
            objs.append(o)
    for p in extra_src:
        hd = os.path.dirname(p)
        k = sha((hdrs + repr((cc, flags)) + p).encode() + _read(p) +
                b''.join(_read(x) for x in sorted(glob.glob(hd + '/*.h'))))[:24]
        o = os.path.join(odir, k + '.o')
        jobs.append((cc, flags + inc + ['-I' + hd], p, o, hd))
        objs.append(o)
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(_compile, jobs) if e]
    if errs:
        raise BuildError('\n'.join(errs[:3]))
    out = out or prog
    archives = []
    for d in ('mdp', 'lp-solve', 'laspack'):
        if not libobjs[d]:
            continue
        a = os.path.join(odir, 'lib%s-%s.a' % (d, sha(repr(sorted(libobjs[d])).encode())[:20]))
        if not os.path.exists(a):
            subprocess.run(['ar', 'crs', a + '.tmp'] + sorted(libobjs[d]), check=True)
            os.replace(a + '.tmp', a)
        os.utime(a)
        archives.append(a)
    ek = sha(repr((sorted(objs), archives, link)).encode())[:16]
    bdir = os.path.join(BUILD, 'bin')
    os.makedirs(bdir, exist_ok=True)
    exe = os.path.join(bdir, f'{out}-{variant}-{ek}')
    if not os.path.exists(exe):
        lf = [f for f in vflags]
        if variant == 'fuzz':
            lf = [f.replace('fuzzer-no-link', 'fuzzer') for f in lf]
        tmp = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run([cc] + lf + objs + archives + ['-lm'] + list(link) + ['-o', tmp], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('link: ' + r.stderr[-3000:])
        os.replace(tmp, exe)
    os.utime(exe)
    _prune(odir, 3000)
    _prune(bdir, 60)
    return exe


def _prune(d, keep):
    fs = [os.path.join(d, f) for f in os.listdir(d)]
    if len(fs) > keep:
        fs.sort(key=os.path.getmtime)
        for f in fs[:len(fs) - keep]:
            try:
                os.unlink(f)
            except OSError:
                pass


if __name__ == '__main__':
    for v in sys.argv[1].split(','):
        for p in sys.argv[2].split(','):
            print(build(v, p))
