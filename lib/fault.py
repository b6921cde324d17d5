"""Runs with one failing call of the file or memory interface (lib/faultmon.c)."""
import os
import build, run as R

WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('fopen', 'malloc', 'calloc', 'realloc'))]


def monitor(variant, prog):
    return build.build(variant, prog, extra_src=[os.path.join(build.VERIF, 'lib', 'faultmon.c')], out='fault-' + prog, link=WRAP)


class Log:
    def __init__(self, path):
        self.struck, self.requests, self.written, self.read = None, None, [], []
        if not os.path.exists(path):
            return
        for l in open(path):
            k, v = l.rstrip('\n').split(' ', 1)
            if k == 'STRUCK':
                self.struck = v
            elif k == 'REQUESTS':
                self.requests = int(v)
            elif k == 'WRITE':
                self.written.append(v)
            else:
                self.read.append(v)
        os.unlink(path)


def go(exe, args, d, spec=None, **kw):
    env = {'FAULTMON_OUT': os.path.join(d, '.faults')}
    if spec:
        env['FAULTMON'] = spec
    r = R.run([exe] + args, d, env=env, **kw)
    return r, Log(os.path.join(d, '.faults'))
