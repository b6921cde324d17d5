"""Runs with signals at chosen points (lib/sigmon.c) and their transcripts."""
import os, re
import build, run as R

MARK = re.compile(r'<<SIG (\d+)>>')
START = re.compile(r'Epoch: (\d+)\.\.\.')
END = re.compile(r'\d+ vectors in [\d.]+ secs')


def monitor(variant='plain'):
    return build.build(variant, 'pomdp-solve', extra_src=[os.path.join(build.VERIF, 'lib', 'sigmon.c')], out='sigmon')


class Transcript:
    """started: epochs begun before the first signal; between: the signal came after the end of the last one;
    last: the last epoch begun in the whole run; left: how many were reported as ended"""

    def __init__(self, out):
        m = MARK.search(out)
        self.fired = [int(x) for x in MARK.findall(out)]
        text = MARK.sub('', out)
        before = out[:m.start()] if m else out
        s = list(START.finditer(before))
        self.started = len(s)
        self.between = not s or END.search(before, s[-1].end()) is not None
        self.solving = '++++++' in before
        all_ = [int(x) for x in START.findall(text)]
        self.last = len(all_)
        self.consecutive = all_ == list(range(1, len(all_) + 1))
        self.found = 'Solution found' in text
        self.finished = 'Solution found' in before
        self.terminated = 'erminated' in text


def go(exe, args, d, spec=None, **kw):
    env = {'SIGMON_OUT': os.path.join(d, '.count')}
    if spec:
        env['SIGMON'] = spec
    r = R.run([exe] + args, d, env=env, **kw)
    n = None
    p = os.path.join(d, '.count')
    if os.path.exists(p):
        n = int(open(p).read())
        os.unlink(p)
    return r, n
