"""Runs the programs under test in scratch directories, watching exit, time, output and sanitizers."""
import os, re, resource, shutil, signal, subprocess, tempfile, time

SCRATCH = os.environ.get('VERIF_SCRATCH', '/tmp/verif-scratch')

SAN = re.compile(r'(AddressSanitizer|MemorySanitizer|runtime error:|UndefinedBehaviorSanitizer|LeakSanitizer)')
ABORT = re.compile(r'\*\* (PROGRAM )?ABORT')


class Result:
    __slots__ = ('args', 'rc', 'out', 'err', 'wall', 'timeout', 'cwd')

    @property
    def text(self):
        return self.out + self.err

    @property
    def sanitizer(self):
        m = SAN.search(self.err) or SAN.search(self.out)
        return m is not None

    @property
    def signal(self):
        return -self.rc if self.rc is not None and self.rc < 0 else None

    @property
    def crashed(self):
        return self.sanitizer or (self.signal is not None and not self.timeout) or self.rc in (77, 78)

    @property
    def aborted(self):
        return ABORT.search(self.text) is not None

    def brief(self, n=600):
        return 'rc=%s timeout=%s %s' % (self.rc, self.timeout, (self.err or self.out)[-n:])

    def signature(self):
        """kind of failure and its innermost frames in the program: stable across layouts of memory"""
        if self.timeout:
            return 'timeout'
        t = self.err + self.out
        kind = None
        m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', t)
        if m:
            kind = 'asan:' + m.group(1)
        m2 = re.search(r'([\w./-]+):(\d+):\d+: runtime error: (.*)', t)
        if m2 and not kind:
            msg = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+-]*", 'N', m2.group(3))[:80]
            kind = 'ubsan:%s:%s' % (os.path.basename(m2.group(1)), msg)
        if 'MemorySanitizer' in t and not kind:
            kind = 'msan:use-of-uninitialized-value'
        if kind:
            fr = []
            for f, file in re.findall(r'#\d+ 0x[0-9a-f]+ in (\w+) (\S+)', t):
                if re.search(r'\.(c|y|l):\d+', file) and 'sanitizer' not in file and 'compiler-rt' not in file:
                    fr.append(f)
                if len(fr) == 2:
                    break
            return kind + ':' + '<'.join(fr)
        if self.aborted:
            m = re.search(r'(ABORT.*)', t)
            lines = [l.strip() for l in t.split('\n') if l.strip()]
            i = next((k for k, l in enumerate(lines) if 'ABORT' in l), 0)
            return 'abort:' + ' '.join(lines[i:i + 2])[:120]
        if self.signal is not None:
            return 'signal:%d' % self.signal
        return 'exit:%s' % self.rc


def env_for(extra=None):
    e = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'LC_ALL': 'C', 'HOME': '/nonexistent',
         'ASAN_OPTIONS': 'detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:'
                         'handle_segv=1:abort_on_error=0:print_stacktrace=1:malloc_context_size=6:'
                         'max_allocation_size_mb=4000:detect_odr_violation=0',
         'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77',
         'MSAN_OPTIONS': 'exitcode=77:print_stacktrace=1:allocator_may_return_null=1',
         'ASAN_SYMBOLIZER_PATH': shutil.which('llvm-symbolizer') or shutil.which('llvm-symbolizer-18') or '',
         'MSAN_SYMBOLIZER_PATH': shutil.which('llvm-symbolizer') or shutil.which('llvm-symbolizer-18') or ''}
    if extra:
        e.update(extra)
    return e


def run(args, cwd, timeout=60, stdin=None, env=None, mem=None, fsize=200 << 20, limit_out=4 << 20, retry=True):
    r = _run(args, cwd, timeout, stdin, env, mem, fsize, limit_out)
    if r.timeout and retry:
        # a stall of the machine is no finding: once more, with more time
        r = _run(args, cwd, timeout * 2, stdin, env, mem, fsize, limit_out)
    return r


def _run(args, cwd, timeout, stdin, env, mem, fsize, limit_out):
    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if fsize:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        # CPU guard in case the parent dies
        resource.setrlimit(resource.RLIMIT_CPU, (int(timeout * 4) + 5, int(timeout * 4) + 10))
    t0 = time.time()
    res = Result()
    res.args, res.cwd, res.timeout = [str(a) for a in args], cwd, False
    fo = tempfile.TemporaryFile()
    fe = tempfile.TemporaryFile()
    p = subprocess.Popen(res.args, cwd=cwd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=fo, stderr=fe, env=env_for(env), preexec_fn=pre)
    try:
        p.communicate(stdin if stdin is None or isinstance(stdin, bytes) else stdin.encode('latin-1', 'replace'), timeout=timeout)
    except subprocess.TimeoutExpired:
        res.timeout = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    except BrokenPipeError:
        p.wait()
    res.rc = p.returncode
    res.wall = time.time() - t0
    for f, k in ((fo, 'out'), (fe, 'err')):
        f.seek(0)
        setattr(res, k, f.read(limit_out).decode('latin-1'))
        f.close()
    return res


class Scratch:
    """a directory that is gone afterwards"""

    def __init__(self, tag='c'):
        os.makedirs(SCRATCH, exist_ok=True)
        self.tag = tag

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix=self.tag + '-', dir=SCRATCH)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)
