"""C06: a file that breaks one rule of the format is refused, with an error naming it; a valid one is not."""
import os, re
import numpy as np
import build, run as R, syntax
from core import Case, case_rng

SYN = r'Syntax error'


def bad_index(rng, n):
    return rng.choice([str(n), str(n), str(n + 1), str(n + rng.randint(1, 500)), '2147483647', '2147483648', '4294967296', '99999999999999999999', '-1', '0.0', '1e0'])


def unknown(rng, f):
    while True:
        x = syntax.names(rng, 1)[0]
        x = rng.choice([x, x + 'q', x.upper() + 'z', 'nosuch'])
        if x not in (f.sn or []) + (f.an or []) + (f.zn or []) and x not in syntax.RESERVED:
            return x


def index_msg(what, tok):
    if re.fullmatch(r'\d+', tok) and int(tok) <= 2147483647:
        return '%s number is out of range' % what
    if re.match(r'[A-Za-z]', tok):
        return 'No %s with name %s found' % (what.lower(), re.escape(tok))
    return SYN


def ok_stmt(f, kw):
    """a well-formed statement for other defects to be put into: tokens and the places of its references"""
    rng = f.rng
    a, s, t, z = (f.A(f.pick(f.nA, .3)), f.S(f.pick(f.nS, .3)), f.S(f.pick(f.nS, .3)), f.Z(f.pick(f.nZ, .3)))
    if kw == 'T':
        return ['T', ':', a, ':', s, ':', t, '0.5'], [(2, 'Action'), (4, 'State'), (6, 'State')]
    if kw == 'O':
        return ['O', ':', a, ':', s, ':', z, '0.5'], [(2, 'Action'), (4, 'State'), (6, 'Observation')]
    return ['R', ':', a, ':', s, ':', t, ':', z, '1'], [(2, 'Action'), (4, 'State'), (6, 'State'), (8, 'Observation')]


def neutral(f, kw, st):
    """the statement, followed by what makes the probabilities right again"""
    out = [st]
    if kw in 'TO':
        for a in range(f.nA):
            out.append([kw, ':', str(a), 'uniform'])
    return out


def breakage(f, kind):
    """-> (statements, expected message) or None if not applicable to this file"""
    rng = f.rng
    pre, st, body = list(f.pre), list(f.st), list(f.body)
    at = rng.randint(0, len(body))

    def ins(s, msg, where=None):
        k = at if where is None else where
        return pre + st + body[:k] + s + body[k:], msg

    if kind in ('sumT', 'sumO'):
        kw = kind[-1]
        M, n = (f.T, f.nS) if kw == 'T' else (f.O, f.nZ)
        a, s, j = rng.randrange(f.nA), rng.randrange(f.nS), rng.randrange(n)
        row = M[a, s].copy()
        how = rng.choice(['zero', 'shift', 'shift', 'drop', 'double', 'row'])
        ref = f.S if kw == 'T' else f.Z
        if how == 'zero':
            add = [[kw, ':', f.A(a), ':', f.S(s), ':', '*', '0']]
            row[:] = 0
        elif how == 'drop':
            j = int(row.argmax())
            row[j] = 0.0
            add = [[kw, ':', f.A(a), ':', f.S(s), ':', ref(j), '0.0']]
        elif how == 'double':
            v = round(rng.uniform(0.1, 1), 3)
            row[:] = v
            add = [[kw, ':', f.A(a), ':', f.S(s), ':', '*', repr(v)]]
        else:
            e = rng.choice([2e-5, 1e-4, 0.001, 0.01, 0.1, 0.5]) * rng.choice([1, -1])
            row = np.array(syntax.dist(rng, n))
            j = int(row.argmax()) if e < 0 else int(row.argmin())
            row[j] = row[j] + e
            row = np.array([float('%.9f' % x) for x in row])
            if row.max() > 1 or row.min() < 0:
                return None
            add = [[kw, ':', f.A(a), ':', f.S(s)] + ['%.9f' % x for x in row]]
        if abs(row.sum() - 1) < 1.5e-5:
            return None
        return pre + st + body + add, r'Bad probability sum for %s' % kw
    if kind == 'norow':
        # a state and action that no statement of the kind speaks of
        kw = rng.choice('TO')
        a = rng.randrange(f.nA)
        b = [x for x in body if x[0] != kw]
        for i in range(f.nA):
            if i != a:
                b.append([kw, ':', str(i), 'uniform'])
            elif f.nS > 1:
                for s in range(f.nS - 1):
                    b.append([kw, ':', str(i), ':', str(s), 'uniform'])
        return pre + st + b, r'Bad probability sum for %s' % kw
    if kind == 'sumstart':
        v = np.array(syntax.dist(rng, f.nS))
        j = rng.randrange(f.nS)
        e = rng.choice([2e-5, 0.001, 0.1, 1.0]) * rng.choice([1, -1])
        v[j] += e
        v = np.round(v, 9)
        if v.min() < 0 or v.max() > 1 or abs(v.sum() - 1) < 1.5e-5:
            v = np.zeros(f.nS)
        return pre + [['start', ':'] + ['%.9f' % x for x in v]] + body, 'Bad probability sum for start belief'
    if kind == 'excludeall':
        l = ['*'] if rng.random() < 0.4 else [f.S(i) for i in rng.sample(range(f.nS), f.nS)]
        return pre + [['start', 'exclude', ':'] + l] + body, 'Bad probability sum for start belief'
    if kind in ('index', 'name'):
        kw = rng.choice('TOR')
        s, places = ok_stmt(f, kw)
        k, what = rng.choice(places)
        n = {'Action': f.nA, 'State': f.nS, 'Observation': f.nZ}[what]
        s[k] = bad_index(rng, n) if kind == 'index' else unknown(rng, f)
        return pre + st + body[:at] + [s] + body[at:] + neutral(f, kw, s)[1:], index_msg(what, s[k])
    if kind == 'othername':
        # the name of another kind of thing
        kw = rng.choice('TOR')
        s, places = ok_stmt(f, kw)
        k, what = rng.choice(places)
        own = {'Action': f.an, 'State': f.sn, 'Observation': f.zn}[what] or []
        other = [x for l in (f.an, f.sn, f.zn) for x in (l or []) if x not in own]
        if not other:
            return None
        s[k] = rng.choice(other)
        return pre + st + body[:at] + [s] + body[at:] + neutral(f, kw, s)[1:], index_msg(what, s[k])
    if kind == 'startref':
        x = bad_index(rng, f.nS) if rng.random() < 0.5 else unknown(rng, f)
        how = rng.choice(['include', 'exclude', 'name'])
        if how == 'name':
            x = unknown(rng, f)
            return pre + [['start', ':', x]] + body, index_msg('State', x)
        l = [f.S(rng.randrange(f.nS)) for _ in range(rng.randint(0, 2))]
        l.insert(rng.randint(0, len(l)), x)
        return pre + [['start', how, ':'] + l] + body, index_msg('State', x)
    if kind == 'missing':
        k = rng.choice(['discount', 'values', 'states', 'actions', 'observations'])
        p = [x for x in pre if x[0] != k]
        return p + st + body, 'observations' if k == 'observations' else "Missing '%s:'" % k
    if kind == 'empty':
        return [], "Missing 'discount:'"
    if kind == 'discount':
        v = rng.choice(['1.5', '1.0001', '2', '100', '1e3', '95', '-0.5', '-1', '-0.001', '1.00000001', 'high', '', '.95', '95%', '0,95'])
        msg = 'discount' if re.fullmatch(r'-?[\d.e]+', v) and v[0] != '.' else r'discount|Syntax|Illegal'
        return [x if x[0] != 'discount' else ['discount', ':'] + (['-'] if v[:1] == '-' else []) + [v.lstrip('-')] for x in pre] + st + body, msg
    if kind == 'count':
        k, nm = rng.choice([('states', f.sn), ('actions', f.an), ('observations', f.zn)])
        v = rng.choice(['0', '0', '00', '-1', '2.5', '1e1', '-', '*', '', '4294967298', '99999999999'])
        msg = 'Bad number of %s' % k if v in ('0', '00') else SYN
        return [x if x[0] != k else [k, ':', v] for x in pre] + st + body, msg
    if kind == 'prob':
        kw = rng.choice('TO')
        v = rng.choice(['1.5', '2', '1.000001', '100', '1e10', '3', '2147483648'])
        s, places = ok_stmt(f, kw)
        n = f.nS if kw == 'T' else f.nZ
        how = rng.choice(['single', 'row', 'start'])
        if how == 'single':
            s[-1] = v
        elif how == 'row':
            s = s[:5] + ['0'] * n
            s[5 + rng.randrange(n)] = v
        else:
            p = ['0'] * f.nS
            p[rng.randrange(f.nS)] = v
            return pre + [['start', ':'] + p] + body, 'Bad probability'
        return pre + st + body[:at] + [s] + body[at:] + neutral(f, kw, s)[1:], 'Bad probability'
    if kind in ('toomany', 'toofew'):
        d = rng.choice([1, 1, 2, 5]) if kind == 'toomany' else -1
        how = rng.choice(['T', 'T', 'O', 'O', 'Trow', 'Orow', 'Rrow', 'Rmat', 'start'])
        a = f.A(f.pick(f.nA)); s = f.S(f.pick(f.nS)); t = f.S(f.pick(f.nS))
        n = {'T': f.nS * f.nS, 'O': f.nS * f.nZ, 'Trow': f.nS, 'Orow': f.nZ, 'Rrow': f.nZ, 'Rmat': f.nS * f.nZ, 'start': f.nS}[how]
        n += d
        if n < 1:
            return None
        msg = 'Too many matrix entries' if kind == 'toomany' else 'Not enough matrix entries'
        v = ['0'] * n
        if how == 'start':
            v[0] = '1'
            return pre + [['start', ':'] + v] + body, msg
        head = {'T': ['T', ':', a], 'O': ['O', ':', a], 'Trow': ['T', ':', a, ':', s], 'Orow': ['O', ':', a, ':', s],
                'Rrow': ['R', ':', a, ':', s, ':', t], 'Rmat': ['R', ':', a, ':', s]}[how]
        if how == 'O' and kind == 'toomany' and False:
            return None
        sx = head + v
        return pre + st + body[:at] + [sx] + body[at:] + (neutral(f, how[0], sx)[1:] if how[0] in 'TO' else []), msg
    if kind == 'dupname':
        k, nm = rng.choice([('states', f.sn), ('actions', f.an), ('observations', f.zn)])
        if not nm:
            return None
        l = list(nm)
        x = rng.choice(l)
        l.insert(rng.randint(0, len(l)), x)
        return [y if y[0] != k else [k, ':'] + l for y in pre] + st + body, "Duplicate name '%s'" % re.escape(x)
    if kind == 'mdpreward':
        return ins([['R', ':', f.A(f.pick(f.nA))] + ['1'] * (f.nS * f.nS)], 'Not a valid reward syntax')
    if kind == 'keyword':
        k = rng.choice(['resetO', 'resetT', 'resetstart', 'idO', 'idTrow', 'uniR', 'valword'])
        a, s = f.A(f.pick(f.nA)), f.S(f.pick(f.nS))
        if k == 'resetO':
            x = ['O', ':', a, ':', s, 'reset']
            return pre + st + body[:at] + [x] + body[at:] + neutral(f, 'O', x)[1:], "'reset' is not allowed"
        if k == 'resetstart':
            return pre + [['start', ':', 'reset']] + body, "'reset' is not allowed"
        if k == 'valword':
            return [x if x[0] != 'values' else ['values', ':', rng.choice(['rewards', 'profit', 'costs', 'Reward', '1', ''])] for x in pre] + st + body, SYN
        x = {'resetT': ['T', ':', a, 'reset'], 'idO': ['O', ':', a, 'identity'], 'idTrow': ['T', ':', a, ':', s, 'identity'],
             'uniR': ['R', ':', a, ':', s, 'uniform']}[k]
        return ins([x], SYN)
    if kind == 'syntax':
        kw = rng.choice('TOR')
        s, places = ok_stmt(f, kw)
        how = rng.choice(['colon', 'value', 'extra', 'junk', 'late', 'early', 'startlate', 'negative', 'trailing', 'case', 'word', 'doublecolon'])
        if how == 'colon':
            del s[1]
        elif how == 'value':
            s = s[:-1]
            return pre + st + body[:at] + [s] + [['T', ':', '*', 'uniform']] + body[at:], SYN
        elif how == 'extra':
            s = s + ['0.5']
        elif how == 'junk':
            return ins([[rng.choice('@=,;()[]{}"\'/\\%$!?<>|&^~`') * rng.randint(1, 2)]], 'Illegal character')
        elif how == 'late':
            return pre + st + body[:1] + [rng.choice(pre)] + body[1:], SYN
        elif how == 'early':
            k = rng.randint(0, 4)
            return pre[:k] + [s] + pre[k:] + st + body, 'Syntax|Missing|Bad probability sum'
        elif how == 'startlate':
            s = ['start', ':', 'uniform']
            at = rng.randint(1, len(body))
            return pre + st + body[:at] + [s] + body[at:], SYN
        elif how == 'negative':
            if kw == 'R':
                return None
            s = s[:-1] + ['-', '0.5']
        elif how == 'trailing':
            return pre + st + body + [[rng.choice(['T', 'O', 'R', ':', 'T :', 'uniform', 'x', '*', '+', 'R : 0 :', 'O : 0 : 0 :', '7 :'])]], SYN
        elif how == 'case':
            s[0] = s[0].lower()
        elif how == 'word':
            s = [rng.choice(['P', 'trans', 'U', 'reward:', 'discount', 'include', 'end'])] + s[1:]
        else:
            s.insert(rng.choice([1, 3]), ':')
        return ins([s], SYN)
    if kind == 'cut':
        k = rng.randrange(len(pre))
        x = pre[k]
        return pre[:k] + [x[:rng.randint(1, len(x) - 1)]] if len(x) > 1 else None, 'Syntax|Missing|Bad probability sum'
    raise KeyError(kind)


KINDS = ['sumT', 'sumO', 'sumT', 'sumO', 'norow', 'sumstart', 'excludeall', 'index', 'index', 'name', 'othername', 'startref', 'missing', 'empty', 'discount',
         'count', 'prob', 'toomany', 'toofew', 'toomany', 'toofew', 'dupname', 'mdpreward', 'keyword', 'syntax', 'syntax', 'syntax', 'cut']


def case(exe, seed, i):
    c = Case('%d' % i)
    rng = case_rng(seed, 'c06', i)
    while True:
        f = syntax.File(rng)
        if f.nS <= 6:
            break
    kind = 'valid' if rng.random() < 0.2 else rng.choice(KINDS)
    if kind == 'valid':
        text, msg = f.text(), None
    else:
        b = None
        while not b or not b[0] and kind != 'empty':
            b = breakage(f, kind)
            if not b or not b[0] and kind != 'empty':
                f = syntax.File(rng, nS=f.nS if rng.random() < 0.5 else rng.choice([2, 3]))
        msg = b[1]
        text = syntax.layout(rng, [[t for t in s if t != ''] for s in b[0]])
        if kind == 'empty' and rng.random() < 0.5:
            text = rng.choice(['', '\n', '# nothing\n', '   ', '#'])
    with R.Scratch('c06') as d:
        open(d + '/m.POMDP', 'wb').write(text.encode('latin-1'))
        tool = rng.random() < 0.15
        if tool:
            a = [exe[1], '-tool', 'update_beliefs', '-pomdp', 'm.POMDP']
        else:
            a = [exe[0], '-pomdp', 'm.POMDP', '-o', 's', '-horizon', '1', '-method', 'enum']
        r = R.run(a, d, timeout=10, stdin='', retry=True)
        c.counts[kind] += 1
        new = sorted(x for x in os.listdir(d) if x != 'm.POMDP')
        if r.timeout:
            c.violation('hang:' + kind, 'loading does not end', model=text)
        elif r.crashed:
            c.violation('crash:%s:%s' % (kind, r.signature()), r.brief(), model=text)
        elif kind == 'valid':
            if 'not successfully parsed' in r.text or 'ERROR' in r.text or r.rc != 0 or (not tool and 's.alpha' not in new):
                c.violation('valid-refused', 'a valid file is refused (status %s)\n%s' % (r.rc, r.brief()), model=text)
        elif r.rc == 0 or 'Epoch:' in r.out:
            c.violation('accepted:' + kind, 'a file with a defect (%s, expected: %s) is accepted, status %s' % (kind, msg, r.rc), model=text)
        elif new:
            c.violation('files:' + kind, 'files written for a defective model: %s' % new, model=text)
        elif not re.search(msg, r.text, re.I):
            c.violation('message:' + kind, 'the error does not name the problem: expected /%s/, said\n%s' % (msg, r.text[-500:]), model=text)
        elif 'Could not successfully parse' not in r.text and 'not a POMDP' not in r.text:
            c.violation('message:' + kind, 'no report of the failure: %s' % r.text[-500:], model=text)
        c.nontrivial = (kind, hash(text))
        if kind != 'valid':
            c.sample = {'defect': kind, 'message': msg, 'said': re.findall(r'ERROR.*', r.text)[:2]}
    return c


def exes():
    return (build.build('asan', 'pomdp-solve'), build.build('asan', 'pomdp-tools'))


def run(chk):
    exe = exes()
    chk.rule = 'files in random syntax that break exactly one known rule, at any place, and valid ones; non-trivial: distinct'
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(5000, 60000))], quick_s=120, thorough_s=1500)
