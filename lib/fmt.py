"""Readers and writers of the programs' files, written from their documented layout."""
import re
import numpy as np


class FormatError(Exception):
    pass


def read_alpha(path, nS):
    """-> (actions list, V array (k,nS)); strict about the layout"""
    acts, vecs = [], []
    lines = open(path).read().split('\n')
    i = 0
    while i < len(lines):
        if not lines[i].strip():
            i += 1
            continue
        if not re.fullmatch(r'\d+', lines[i].strip()):
            raise FormatError(f'{path}:{i+1}: action line expected, found {lines[i][:60]!r}')
        a = int(lines[i])
        if i + 1 >= len(lines):
            raise FormatError(f'{path}: missing values after line {i+1}')
        v = lines[i + 1].split()
        if len(v) != nS:
            raise FormatError(f'{path}:{i+2}: {len(v)} values for {nS} states')
        try:
            v = [float(x) for x in v]
        except ValueError:
            raise FormatError(f'{path}:{i+2}: not numbers')
        acts.append(a)
        vecs.append(v)
        i += 2
    return acts, np.array(vecs).reshape(len(vecs), nS)


def write_alpha(path, acts, V, digits=25):
    with open(path, 'w') as f:
        for a, v in zip(acts, V):
            f.write('%d\n' % a)
            f.write(''.join('%.*f ' % (digits, x) for x in v) + '\n\n')


def read_pg(path, nZ):
    """-> list of (id, action, [succ]); succ is an int, 'X' for impossible or '-' for none"""
    out = []
    for ln, line in enumerate(open(path), 1):
        t = line.split()
        if not t:
            continue
        if len(t) != 2 + nZ:
            raise FormatError(f'{path}:{ln}: {len(t)} fields for {nZ} observations')
        succ = []
        for x in t[2:]:
            if x in ('X', '-'):
                succ.append(x)
            elif re.fullmatch(r'\d+', x):
                succ.append(int(x))
            else:
                raise FormatError(f'{path}:{ln}: bad successor {x!r}')
        if not re.fullmatch(r'\d+', t[0]) or not re.fullmatch(r'\d+', t[1]):
            raise FormatError(f'{path}:{ln}: bad node or action')
        out.append((int(t[0]), int(t[1]), succ))
    return out


def write_pg(path, nodes):
    with open(path, 'w') as f:
        for i, a, succ in nodes:
            f.write('%d %d  %s\n' % (i, a, ' '.join(str(x) for x in succ)))


EPOCH = re.compile(r'^Epoch: (\d+)\.\.\.(\d+) vectors in ([\d.]+) secs\. \(([\d.]+) total\) \(err=([^)]+)\)', re.M)


def epochs(stdout):
    """-> list of (epoch, vectors, err)"""
    return [(int(a), int(b), float(e)) for a, b, _, _, e in EPOCH.findall(stdout)]
