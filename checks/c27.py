"""C27: vector, belief and index lists and name tables behave like sequences (and maps).

Random operation sequences run on the real containers under AddressSanitizer+UBSan; a sequence model in Python
predicts what a walk over every container touched must see, and that no block of memory is left at the end."""
import os
import build, run as R
from core import Case, case_rng

K = 6


def close(u, v, e):
    return all(abs(x - y) < e for x, y in zip(u, v))


def lexbetter(u, v, e):
    for x, y in zip(u, v):
        if abs(x - y) < e:
            continue
        return y + e <= x
    return False


def dominates(u, v):
    return all(x > y for x, y in zip(u, v))


def fv(v):
    return ' -' if v is None else ' [' + ' '.join('%.10g' % x for x in v) + ']'


class Node:
    def __init__(self, v, a=0, id=0, mark=0, w=None):
        self.v, self.a, self.id, self.mark, self.w, self.src = v, a, id, mark, w, None

    def show(self, nZ):
        return ' (%d %d %d%s%s%s)' % (self.id, self.a, self.mark, fv(self.v), fv(self.w),
                                      ' -' if self.src is None else ' {' + ' '.join(map(str, self.src)) + '}')

    def clone(self):
        n = Node(list(self.v), self.a, self.id, 0, None if self.w is None else list(self.w))
        return n


def push(lst, n):
    n.id = lst[-1].id + 1 if lst else 0
    lst.append(n)


def unshift(lst, n):
    n.id = lst[0].id - 1 if lst else 0
    lst.insert(0, n)


def session(rng, nS, nZ, aa, width, nops):
    """-> (commands, expected transcript)"""
    L = [[] for _ in range(K)]
    D = [[] for _ in range(K)]
    I = [[] for _ in range(K)]
    B = [[] for _ in range(K)]
    A = []
    cmds, exp = [], []
    pool = [[float(rng.randint(-2, 2)) for _ in range(nS)] for _ in range(rng.choice([3, 8, 40]))]
    ev = 0

    def vec():
        v = list(rng.choice(pool))
        if rng.random() < 0.1:
            j = rng.randrange(nS)
            v[j] += rng.choice([1e-12, 0.25, -0.25])
        return v

    def cv(v):
        return ' '.join(repr(x) for x in v)

    def dl(*ks):
        return ''.join('  L%d %d:%s ok\n' % (k, len(L[k]), ''.join(n.show(nZ) for n in L[k])) for k in ks)

    def dd(*ks):
        return ''.join('  D%d %d:%s ok\n' % (k, len(D[k]), ''.join(' (%d %d%s)' % (n.id, n.a, fv(n.v)) for n in D[k])) for k in ks)

    def db(k):
        return '  B%d %d:%s\n' % (k, len(B[k]), ''.join(fv(v) for v in B[k]))

    def di(k):
        return '  I%d %d:%s ok\n' % (k, len(I[k]), ''.join(' %d' % x for x in I[k]))

    ops = ['append'] * 10 + ['prepend'] * 4 + ['dequeue', 'move', 'move', 'dupnode', 'dupnode', 'dup', 'dupw', 'copy', 'union', 'union', 'clear', 'renew', 'find', 'find',
           'same', 'sort', 'renumber', 'witness', 'witness', 'source', 'mark', 'mark', 'mark', 'clearmark', 'markall', 'unmarked', 'extunmarked', 'markdom', 'markdom',
           'extmarked', 'extmarked', 'rmmarked', 'rmdom', 'extract', 'extract', 'extfrom', 'rmfrom', 'unique', 'unique', 'best', 'best', 'rmbest', 'maxsize', 'file'] + \
        ['Dappend'] * 5 + ['Dprepend'] * 3 + ['Ddequeue', 'Dmove', 'Dmove', 'Ddupnode', 'Ddup', 'Dcopy', 'Dunion', 'Dclear', 'Drenumber', 'Dfind', 'Dsame', 'Dvec', 'Dvec'] + \
        ['Iappend', 'Iappend', 'Iresize', 'Irenew', 'Bappend', 'Bappend', 'Bprepend', 'Bfind', 'Brenew', 'Aput', 'Aput', 'Aget', 'Aget']
    focus = rng.random()
    if focus < 0.5:
        ops = [o for o in ops if not o[0].isupper()]
    live = rng.sample(range(K), rng.choice([2, 3, K]))
    e = 1e-9
    for _ in range(nops):
        o = rng.choice(ops)
        k = rng.choice(live)
        j = rng.choice([x for x in live if x != k])
        if o in ('clear', 'renew', 'Dclear', 'Brenew', 'Irenew', 'dup', 'dupw', 'copy') and rng.random() < 0.6:
            continue
        i = rng.randint(0, max(0, len(L[k])))
        if rng.random() < 0.3 and L[k]:
            i = rng.choice([0, len(L[k]) - 1])
        if o == 'append' or o == 'prepend':
            a, v = rng.randrange(3), vec()
            (push if o == 'append' else unshift)(L[k], Node(v, a))
            c, r = '%d %d %s' % (k, a, cv(v)), ' 1\n' + dl(k)
        elif o == 'dequeue':
            n = L[k].pop(0) if L[k] else None
            c, r = '%d' % k, (n.show(nZ) if n else ' NULL') + ' 1\n' + dl(k)
        elif o == 'move':
            t = rng.randrange(3)
            if L[k]:
                n = L[k].pop(0)
                (unshift if t == 2 else push)(L[j], n)
            c, r = '%d %d %d' % (k, j, t), '\n' + dl(k, j)
        elif o == 'dupnode':
            if rng.random() < 0.3:
                j = k
            if i < len(L[k]):
                n = L[k][i].clone()
                push(L[j], n)
            c, r = '%d %d %d' % (k, j, i), '\n' + dl(k, j)
        elif o in ('dup', 'copy'):
            L[j] = []
            for n in L[k]:
                x = n.clone()
                x.mark, x.w = n.mark, None
                L[j].append(x)
            c, r = '%d %d' % (k, j), '\n' + (dl(j) if o == 'dup' else dl(k, j))
        elif o == 'dupw':
            for n in L[k]:
                if n.w is None:
                    break
            else:
                L[j] = []
                for n in L[k]:
                    x = n.clone()
                    x.mark = n.mark
                    L[j].append(x)
                c, r = '%d %d' % (k, j), '\n' + dl(k, j)
                cmds.append(o + ' ' + c)
                exp.append(o + r)
            continue
        elif o == 'union':
            L[k] += L[j]
            L[j] = []
            c, r = '%d %d' % (k, j), '\n' + dl(k, j)
        elif o in ('clear', 'renew'):
            L[k] = []
            c, r = '%d' % k, '\n' + dl(k)
        elif o == 'find':
            v = vec()
            x = next((q for q, n in enumerate(L[k]) if close(n.v, v, e)), -1)
            c, r = '%d %r %s' % (k, e, cv(v)), ' %d %d\n' % (x, x >= 0)
        elif o == 'same':
            if rng.random() < 0.2:
                j = k
            s = len(L[k]) == len(L[j])
            c = '%d %d %r' % (k, j, e)
            r = ' %d %d\n' % (s and all(close(x.v, y.v, e) for x, y in zip(L[k], L[j])),
                              s and all(any(close(x.v, y.v, e) for y in L[j]) for x in L[k]) and all(any(close(x.v, y.v, e) for y in L[k]) for x in L[j]))
        elif o == 'sort':
            # among equal vectors the order is free: only sorted when no two are equal
            if len(set(tuple(n.v) for n in L[k])) < len(L[k]):
                continue
            L[k].sort(key=lambda n: n.v)
            for q, n in enumerate(L[k]):
                n.id = q
            c, r = '%d' % k, '\n' + dl(k)
        elif o == 'renumber':
            for q, n in enumerate(L[k]):
                n.id = q
            c, r = '%d' % k, '\n' + dl(k)
        elif o == 'witness':
            v = vec()
            if i < len(L[k]):
                L[k][i].w = list(v)
            c, r = '%d %d %s' % (k, i, cv(v)), '\n' + dl(k)
        elif o == 'source':
            q = rng.randrange(nZ)
            if i < len(L[k]):
                L[k][i].src = [-1] * nZ
                L[k][i].src[q] = L[j][0].id if L[j] else -1
            c, r = '%d %d %d %d' % (k, i, j, q), '\n' + dl(k)
            for l in L:
                for n in l:
                    n.src = None
        elif o == 'mark':
            if i < len(L[k]):
                L[k][i].mark = 1
            c, r = '%d %d' % (k, i), '\n' + dl(k)
        elif o in ('clearmark', 'markall'):
            for n in L[k]:
                n.mark = int(o == 'markall')
            c, r = '%d' % k, '\n' + dl(k)
        elif o == 'unmarked':
            u = [q for q, n in enumerate(L[k]) if not n.mark]
            c, r = '%d' % k, ' %d %d %d\n' % (len(u), not u, u[0] if u else -1)
        elif o == 'extunmarked':
            u = [q for q, n in enumerate(L[k]) if not n.mark]
            n = L[k].pop(u[0]) if u else None
            c, r = '%d' % k, (n.show(nZ) if n else ' NULL') + '\n' + dl(k)
        elif o in ('markdom', 'rmdom'):
            v = [x + rng.choice([0, 1, 0.5]) for x in vec()]
            if o == 'rmdom':
                x = [n for n in L[k] if not dominates(v, n.v)]
                cnt = len(L[k]) - len(x)
                L[k] = x
                for n in x:
                    n.mark = 0
                c, r = '%d %s' % (k, cv(v)), ' %d\n' % cnt + dl(k)
            else:
                cnt = 0
                for n in L[k]:
                    if not n.mark and dominates(v, n.v):
                        n.mark = 1
                        cnt += 1
                c, r = '%d %s' % (k, cv(v)), ' %d %d\n' % (cnt, any(dominates(n.v, v) for n in L[k])) + dl(k)
        elif o in ('extmarked', 'rmmarked'):
            x = [n for n in L[k] if n.mark]
            L[k] = [n for n in L[k] if not n.mark]
            if o == 'extmarked':
                L[j] = []
                for n in x:
                    n.mark = 0
                    push(L[j], n)
                c, r = '%d %d' % (k, j), '\n' + dl(k, j)
            else:
                c, r = '%d' % k, ' %d\n' % len(x) + dl(k)
        elif o == 'extract':
            t = j if rng.random() < 0.2 else k
            i = rng.randint(0, len(L[t]))
            n = L[k].pop(i) if t == k and i < len(L[k]) else None
            c, r = '%d %d %d' % (k, t, i), (n.show(nZ) if n else ' NULL') + '\n' + dl(k, t)
        elif o in ('extfrom', 'rmfrom'):
            v = vec()
            x = next((q for q, n in enumerate(L[k]) if close(n.v, v, e)), -1)
            n = L[k].pop(x) if x >= 0 else None
            c = '%d %r %s' % (k, e, cv(v))
            r = (((n.show(nZ) if n else ' NULL') + '\n') if o == 'extfrom' else ' %d\n' % (x >= 0)) + dl(k)
        elif o == 'unique':
            v, a = vec(), rng.randrange(3)
            new = not any(close(n.v, v, e) for n in L[k])
            if new:
                push(L[k], Node(v, a))
            c, r = '%d %d %r %s' % (k, a, e, cv(v)), ' %d\n' % new + dl(k)
        elif o in ('best', 'rmbest'):
            w = [rng.choice([0, 1, 1, 2]) for _ in range(nS)]
            b = [x / 8.0 for x in w]
            val = [sum(x * y for x, y in zip(n.v, b)) for n in L[k]]
            x = -1
            # values that differ by less than the tolerance make the answer depend on the order: skipped
            if any(0 < abs(p - q) < 1e-8 for p in val for q in val) or any(0 < abs(p - q) < 1e-8 for n in L[k] for m in L[k] for p, q in zip(n.v, m.v)):
                continue
            for q, n in enumerate(L[k]):
                if x < 0 or val[q] > val[x] or val[q] == val[x] and lexbetter(n.v, L[k][x].v, e):
                    x = q
            if o == 'best':
                c, r = '%d %s' % (k, cv(b)), (' %d %d\n' % (x, round(val[x] * 1e6)) if x >= 0 else ' -1\n')
            else:
                n = L[k].pop(x) if x >= 0 else None
                c, r = '%d %s' % (k, cv(b)), (n.show(nZ) if n else ' NULL') + '\n' + dl(k)
        elif o == 'maxsize':
            t = rng.randint(0, K)
            c, r = '%d' % t, ' %d\n' % max([0] + [len(l) for l in L[:t]])
        elif o == 'file':
            lim = rng.choice([0, -1, 1, 2, 100])
            if L[k]:
                L[j] = []
                for n in (L[k] if lim <= 0 else L[k][:lim]):
                    push(L[j], Node(list(n.v), n.a))
            c, r = '%d %d %d' % (k, j, lim), ' %d\n' % bool(L[k]) + dl(j)
        elif o in ('Dappend', 'Dprepend'):
            v, a = vec(), rng.randint(-1, 5)
            (push if o == 'Dappend' else unshift)(D[k], Node(v, a))
            c, r = '%d %d %s' % (k, a, cv(v)), ' 1\n' + dd(k)
        elif o == 'Ddequeue':
            n = D[k].pop(0) if D[k] else None
            c, r = '%d' % k, (' %d%s' % (n.id, fv(n.v)) if n else ' -9') + '\n' + dd(k)
        elif o == 'Dmove':
            t = rng.randrange(3)
            if D[k]:
                n = D[k].pop(0)
                (unshift if t == 2 else push)(D[j], n)
            c, r = '%d %d %d' % (k, j, t), '\n' + dd(k, j)
        elif o == 'Ddupnode':
            i = rng.randint(0, len(D[k]))
            if i < len(D[k]):
                push(D[j], D[k][i].clone())
            c, r = '%d %d %d' % (k, j, i), '\n' + dd(k, j)
        elif o in ('Ddup', 'Dcopy'):
            D[j] = [n.clone() for n in D[k]]
            c, r = '%d %d' % (k, j), '\n' + dd(k, j)
        elif o == 'Dunion':
            D[k] += D[j]
            D[j] = []
            c, r = '%d %d' % (k, j), '\n' + dd(k, j)
        elif o == 'Dclear':
            D[k] = []
            c, r = '%d' % k, '\n' + dd(k)
        elif o == 'Drenumber':
            for q, n in enumerate(D[k]):
                n.id = q
            c, r = '%d' % k, '\n' + dd(k)
        elif o == 'Dfind':
            v = vec()
            x = next((q for q, n in enumerate(D[k]) if close(n.v, v, e)), -1)
            c, r = '%d %r %s' % (k, e, cv(v)), ' %d %d\n' % (x, x >= 0)
        elif o == 'Dsame':
            s = len(D[k]) == len(D[j])
            c = '%d %d %r' % (k, j, e)
            r = ' %d %d\n' % (s and all(close(x.v, y.v, e) for x, y in zip(D[k], D[j])),
                              s and all(any(close(x.v, y.v, e) for y in D[j]) for x in D[k]) and all(any(close(x.v, y.v, e) for y in D[k]) for x in D[j]))
        elif o == 'Dvec':
            u, v = vec(), vec()
            if rng.random() < 0.3:
                u = [x + 1 for x in v]
            if rng.random() < 0.2:
                u = [0.0] * nS
            x = (close(u, v, e), close(u, [0.0] * nS, e), lexbetter(u, v, e), dominates(u, v))
            c, r = '%r %s %s' % (e, cv(u), cv(v)), ' %d %d %d %d %d %d %d %d\n' % (x + x)
        elif o == 'Iappend':
            x, cnt = rng.randint(-1000, 1000), rng.choice([1, 1, 3, 9, 10, 11, 45])
            I[k] += range(x, x + cnt)
            c, r = '%d %d %d' % (k, x, cnt), '\n' + di(k)
        elif o == 'Iresize':
            if len(I[k]) > 100:
                continue
            c, r = '%d' % k, '\n' + di(k)
        elif o == 'Irenew':
            I[k] = []
            c, r = '%d' % k, '\n' + di(k)
        elif o in ('Bappend', 'Bprepend'):
            v = vec()
            B[k].insert(len(B[k]) if o == 'Bappend' else 0, v)
            c, r = '%d %s' % (k, cv(v)), '\n' + db(k)
        elif o == 'Bfind':
            v = vec()
            c, r = '%d %r %s' % (k, e, cv(v)), ' %d\n' % next((q for q, n in enumerate(B[k]) if close(n, v, e)), -1)
        elif o == 'Brenew':
            B[k] = []
            c, r = '%d' % k, '\n' + db(k)
        elif o in ('Aput', 'Aget'):
            key = rng.choice(['a', 'b', 'key', 'a' * (width - 1), 'b' * (width - 1), 'A', 'ab', 'k%d' % rng.randrange(2 * aa)])[:width - 1]
            x = next((q for q, p in enumerate(A) if p[0] == key), -1)
            if o == 'Aget':
                c, r = key, ' %s\n' % (A[x][1] if x >= 0 else 'NULL')
            else:
                val = ''.join(rng.choice('xyz=') for _ in range(rng.choice([1, 2, width - 1])))
                if x >= 0:
                    A[x][1] = val
                elif len(A) < aa:
                    A.append([key, val])
                    x = -2
                else:
                    x = -3
                c, r = '%s %s' % (key, val), ' %d\n' % {-2: 1, -3: -1}.get(x, 0) + '  A %d:\n' % len(A) + ''.join('%s = %s\n' % tuple(p) for p in A)
        ev += 1
        cmds.append(o + ' ' + c)
        exp.append(o + r)
    exp.append('end 0\n')
    return cmds, exp


def case(exe, seed, i):
    c = Case('seed=%d case=%d' % (seed, i))
    rng = case_rng(seed, 'C27', i)
    nS, nZ = rng.choice([1, 2, 2, 3, 5]), rng.randint(1, 3)
    aa, width = rng.choice([1, 3, 10]), rng.choice([3, 8, 40])
    cmds, exp = session(rng, nS, nZ, aa, width, rng.choice([30, 150, 400]))
    with R.Scratch('c27') as d:
        r = R.run([exe], d, timeout=20, stdin='%d %d %d %d\n' % (nS, nZ, aa, width) + '\n'.join(cmds) + '\n')
        files = dict(input='%d %d %d %d\n' % (nS, nZ, aa, width) + '\n'.join(cmds) + '\n', expected=''.join(exp), got=r.out)
        if r.timeout:
            c.violation('hang', 'an operation does not end; last output %r' % r.out[-200:], **files)
            return c
        if r.crashed or r.aborted:
            c.violation('memory:' + r.signature(), r.brief(1500), **files)
            return c
        # compare command by command
        pos = 0
        for q, x in enumerate(exp):
            if r.out[pos:pos + len(x)] != x:
                what = cmds[q].split()[0] if q < len(cmds) else 'end'
                c.violation('lost-memory' if what == 'end' else 'differs:' + what, 'after %d operations, %r:\nexpected %r\ngot      %r' %
                            (q, cmds[q] if q < len(cmds) else 'end', x[:400], r.out[pos:pos + 400]), **files)
                return c
            pos += len(x)
        if r.rc != 0:
            c.violation('exit', r.brief(), **files)
            return c
    c.count(operations=len(cmds))
    for o in set(x.split()[0] for x in cmds):
        c.counts['op_' + o] += sum(1 for x in cmds if x.split()[0] == o)
    c.nontrivial = tuple(cmds)
    c.sample = dict(states=nS, operations=cmds[:8])
    return c


def run(chk):
    srcs = sorted(set(build.source_lists()['pomdp-solve']) | {'double-vector.c', 'index-list.c', 'belief.c', 'associative-array.c'})
    exe = build.build('asan', 'pomdp-solve', all_srcs=srcs, extra_src=[os.path.join(build.VERIF, 'lib', 'listmon.c')], drop=['main.c'], out='listmon',
                      link=['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free'])
    chk.rule = ('random sequences of 30 to 400 operations over six lists of each kind; the walk over each list touched, results and the balance of '
                'allocations are compared with a sequence model; non-trivial: distinct sequences')
    chk.assumptions = ['API preconditions are kept (a node is in one list, lists to copy into are empty)']
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(1500, 40000))], quick_s=60, thorough_s=1500)
