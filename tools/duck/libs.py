"""DuckLib checks: array, trie, sorts, allocator.

Operation sequences (all short ones, enumerated by TLC from the specification, and long random ones) are run by
harness/dll.c in several builds; what it recorded is checked step by step by spec/DuckLibTrace.tla."""
import json
import os
import random
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import build, tlc, run

LINK = ['-Wl,--wrap=malloc', '-Wl,--wrap=realloc']


class Case:
    """One session: kind, header words, declared keys, ops (dicts as in the specification), params for the specification."""

    def __init__(self, sid, kind, head, ops, p, keys=()):
        self.sid, self.kind, self.head, self.ops, self.p, self.keys = sid, kind, head, ops, p, keys

    def text(self, config):
        h = list(self.head)
        if config.startswith('portable') and self.kind in 'AT':
            h.append(self.p.get('arena', 1 << 16))
        out = ['S %s %s %s' % (self.sid, self.kind, ' '.join(map(str, h)))]
        out += ['k ' + (k.hex() or '-') for k in self.keys]
        for o in self.ops:
            if self.kind == 'A':
                out.append('%s %d %s' % (o['o'], o['f'], ' '.join(map(str, o['a']))))
            elif self.kind == 'T':
                out.append('ins %d %d %d' % (o['f'], o['a'][0], o['a'][1]) if o['o'] == 'ins' else 'quit')
            elif self.kind == 'O':
                out.append('sort %s %d %d %d %d %d %s' % (o['alg'], o['size'], o['order'], o['low'], o['high'],
                                                          len(o['keys']), ' '.join(map(str, o['keys']))))
            else:
                out.append('%s %d %d' % (o['o'], o['id'], o['n']))
        return '\n'.join(out) + '\nE\n'

    def record(self, tid, lines, end):
        """The trace for TLC: operations with what was observed."""
        ops = []
        lines = [l[2:] for l in lines]
        first = None
        if self.kind == 'M':
            if not lines:
                return {'id': tid, 'kind': 'A', 'p': {'mayFail': False},
                        'ops': [{'o': 'crash', 'f': 0, 'a': [], 'err': 'crash', 'out': [], 'st': [], 'fit': True}]}
            first, lines = mem_obs(lines[0]), lines[1:]
            if first['err'] != 'ok':                    # arena too small: nothing to check
                return None
        for j, o in enumerate(self.ops):
            x = dict(o)
            l = lines[j] if j < len(lines) else None
            if l is None:
                x['err'] = 'crash'
                dummy = {'A': {'out': [], 'st': [], 'fit': True}, 'T': {'out': []}, 'O': {'out': [], 'in': []},
                         'M': {'tab': 0, 'len': 0, 'live': [], 'ok': False}}[self.kind]
                x.update(dummy)
                x.pop('keys', None)
                ops.append(x)
                break
            f = [y.strip() for y in l.split(';')]
            if self.kind == 'A':
                x.update(err=f[0], out=ints(f[1]), st=ints(f[2]), fit=f[3] == '1')
            elif self.kind == 'T':
                x.update(err=f[0], out=ints(f[1]))
            elif self.kind == 'O':
                x.update(err=f[0], out=[{'k': int(e.split(':')[0]), 'i': int(e.split(':')[1])} for e in f[1].split()])
                x['in'] = [{'k': k, 'i': i if o['size'] > 1 else 0} for i, k in enumerate(o['keys'])]
                x.pop('keys')
            else:
                m = mem_obs(l)
                m.pop('entry')
                x.update(m)
            ops.append(x)
        if end != 'ok' and (not ops or ops[-1]['err'] != 'crash'):
            ops.append(dict(ops[-1] if ops else {}, err='crash'))
        p = dict(self.p)
        if self.kind == 'M':
            p.update(entry=first['entry'], obs={'tab': first['tab'], 'len': first['len'], 'live': []})
        return {'id': tid, 'kind': self.kind, 'p': p, 'ops': ops}


def ints(x):
    return [int(y) for y in x.split()]


def mem_obs(l):
    f = [y.strip() for y in l.split(';')]
    live, ok = [], True
    for b in f[3].split():
        i, off, n, good = map(int, b.split(':'))
        live.append([i, off, n])
        ok = ok and good == 1
    tab, ln = ints(f[2])
    return {'err': f[0], 'ok': ok and f[1] != '0', 'entry': int(f[1]), 'tab': tab, 'len': ln, 'live': live}


def drive(exe, texts, workers=8):
    env = dict(os.environ, ASAN_OPTIONS=run.ASAN)
    groups = [texts[i::workers] for i in range(workers)]

    def go(g):
        return subprocess.run([exe, '10'], input=''.join(g).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                              env=env).stdout.decode('latin-1')
    out = {}
    with ThreadPoolExecutor(workers) as ex:
        for o in ex.map(go, groups):
            cur, lines = None, []
            for l in o.split('\n'):
                if l.startswith('B '):
                    cur, lines = l[2:], []
                elif l.startswith('Z ') and cur:
                    out[cur] = (lines, l.split(' ', 2)[2])
                    cur = None
                elif l.startswith('O '):
                    lines.append(l)
    return out


def validate(records, timeout=800):
    f = os.path.join(build.scratch(), 'lib.%d.json' % os.getpid())
    with open(f, 'w') as fh:
        for r in records:
            fh.write(json.dumps(r) + '\n')
    out, st = tlc.run('DuckLibTrace', env={'DUCK_IN': f}, timeout=timeout)
    os.unlink(f)
    v, _ = tlc.verdicts(out)
    if len(v) != len(records):
        i = out.find('Error:')
        raise tlc.TLCError('%d verdicts for %d traces\n%s' % (len(v), len(records), out[i:i + 3000]))
    return v, st


def enumerate_ops(chk, kind, depth, keys=0, sample=None):
    """All operation sequences of the given length, from TLC."""
    out, st = tlc.run('DuckLibGen', env={'DUCK_KIND': kind, 'DUCK_DEPTH': str(depth), 'DUCK_KEYS': str(keys)})
    if 'Error' in out:
        raise tlc.TLCError(out[-3000:])
    chk.stats(st)
    seen = set()
    for l in out.split('\n'):
        m = re.match(r'^"@@B (.*)"$', l)
        if m:
            seen.add(m.group(1).replace('\\"', '"'))
    res = sorted(seen)
    if sample and len(res) > sample:
        res = random.Random('%s/%d' % (kind, chk.seed)).sample(res, sample)
    return [json.loads(x) for x in res]


def check(chk, cases, configs, batch=20000):
    exes = build.build('dll', configs, LINK)
    chk.note('built', sorted(exes), len(cases), 'sessions')
    for i in range(0, len(cases), batch):
        part = cases[i:i + batch]
        recs, origin = [], {}
        uniq = {}
        n = 0
        for c in configs:
            got = drive(exes[c], [x.text(c) for x in part])
            for x in part:
                lines, end = got.get(x.sid, ([], 'lost'))
                r = x.record('', lines, end)
                if r is None:
                    chk.add('sessions_out_of_scope', 1)
                    continue
                n += 1
                key = x.sid + json.dumps(r, sort_keys=True)
                if key in uniq:
                    continue
                tid = 't%d' % len(recs)
                r['id'] = tid
                if not r['ops']:
                    continue
                uniq[key] = tid
                origin[tid] = (x, c, lines, end)
                recs.append(r)
        v, st = validate(recs)
        chk.stats(st)
        bad = [t for t in v if v[t][0] == 'bad']
        chk.add('traces_validated_against_impl', n)
        for t in sorted(bad, key=lambda t: int(t[1:])):
            x, c, lines, end = origin[t]
            got = drive(exes[c], [x.text(c)])[x.sid]
            if got != (lines, end):
                chk.note('not reproduced', x.sid, c)
                continue
            k = int(v[t][1][0])
            chk.violation(x.sid, {'property': chk.prop, 'build': c, 'session': x.text(c).split('\n'), 'first_bad_operation': k,
                                  'observed': lines[max(0, k - 3):k + 2], 'end': end})
            if len(chk.violations) >= 5:
                break
        for r in recs[:1]:
            chk.sample({'ops': r['ops'][:4]})
        chk.note('validated', i + len(part), 'bad', len(bad))
        if chk.violations:
            break


# ---- array -----------------------------------------------------------------
def array_random(r, n):
    ops, ln = [], 0
    v = 0
    for _ in range(n):
        o = r.choices(['push', 'pushnull', 'pushn', 'pushnulln', 'pop', 'drop', 'popn', 'dropn', 'top', 'settop', 'get', 'set',
                       'clear', 'fresh'], [12, 2, 8, 2, 6, 2, 4, 2, 3, 3, 6, 6, 0.7, 0.3])[0]
        f = 1 if r.random() < 0.15 else 0
        v = (v + 1) % 119 + 1
        k = r.choice([0, 1, 2, 3, 5, 9, 20])
        ix = r.choice([0, ln - 1, ln, -1, r.randrange(0, ln + 1), ln + 1, 1 << 40, -(1 << 40)])
        if o == 'get' or o == 'set':
            ix = max(-2**31 + 1, min(2**31 - 1, ix))
        a = {'push': [v], 'pushn': [k] + [(v + j) % 120 for j in range(k)], 'pushnulln': [k], 'popn': [k], 'dropn': [k],
             'settop': [v], 'get': [ix], 'set': [ix, v]}.get(o, [])
        if not f:
            ln = {'push': ln + 1, 'pushnull': ln + 1, 'pushn': ln + k, 'pushnulln': ln + k, 'pop': max(0, ln - 1),
                  'drop': max(0, ln - 1), 'popn': ln - k if ln >= k else ln, 'dropn': ln - k if ln >= k else ln,
                  'clear': 0, 'fresh': 0}.get(o, ln)
        ops.append({'o': o, 'f': f, 'a': a})
    return ops


def c17(chk, n_for):
    r = random.Random('C17/%d' % chk.seed)
    cases = []
    for j, ops in enumerate(enumerate_ops(chk, 'A', n_for(chk, 3, 4), sample=n_for(chk, 8000, 10**6))):
        es, fit = r.choice([1, 2, 3, 4, 8, 16, 24]), r.randrange(2)
        cases.append(Case('e%d' % j, 'A', [es, fit], ops, {'mayFail': False}))
    for j in range(n_for(chk, 1500, 30000)):
        es, fit = r.choice([1, 2, 3, 4, 5, 8, 16, 24, 40]), r.randrange(2)
        cases.append(Case('r%d' % j, 'A', [es, fit], array_random(r, r.randrange(5, 60)), {'mayFail': False}))
    check(chk, cases, ['default', 'asan', 'portable-asan'])
    # arenas small enough to run out
    cases = []
    for j in range(n_for(chk, 800, 15000)):
        es, fit = r.choice([1, 2, 3, 4, 8, 16, 24]), r.randrange(2)
        cases.append(Case('m%d' % j, 'A', [es, fit], array_random(r, r.randrange(5, 60)),
                          {'mayFail': True, 'arena': r.randrange(260, 900)}))
    check(chk, cases, ['portable-asan'])


# ---- trie ------------------------------------------------------------------
def universe(r):
    al = r.choice([b'ab', b'ab', b'a', b'abc', bytes([0, 255]), bytes(range(256))])
    ks = {b''}
    while len(ks) < r.randrange(3, 24):
        if r.random() < 0.6 and len(ks) > 1:
            k = r.choice(sorted(ks))
            k = r.choice([k + bytes([r.choice(al)]), k[:-1], k[:r.randrange(0, len(k) + 1)] + bytes([r.choice(al)]), k + k])
        else:
            k = bytes(r.choice(al) for _ in range(r.randrange(1, 7)))
        ks.add(k[:40])
        if len(al) == 1 and len(ks) > 8:
            break
    ks = sorted(ks)
    r.shuffle(ks)
    return ks


def c18(chk, n_for):
    r = random.Random('C18/%d' % chk.seed)
    cases = []
    seqs = enumerate_ops(chk, 'T', 3, 6, sample=n_for(chk, 8000, 10**6))
    unis = [[b'', b'a', b'ab', b'abc', b'b', b'abd'], [b'', b'x', b'xy', b'xz', b'xyz', b'y'],
            [b'', b'ab', b'ac', b'a', b'abab', b'ba'], [b'', bytes(1), bytes(2), b'\0\xff', b'\xff', b'\xff\0'],
            [b'', b'hello', b'help', b'hell', b'he', b'world']]
    for j, ops in enumerate(seqs):
        u = r.choice(unis)
        cases.append(Case('e%d' % j, 'T', [-1], ops + [{'o': 'quit', 'f': 0, 'a': [0, 0]}],
                          {'mayFail': False, 'n': len(u), 'empty': 1, 'null': -1}, u))
    for j in range(n_for(chk, 2000, 40000)):
        u = universe(r)
        fails = r.random() < 0.5
        ops = [{'o': 'ins', 'f': r.randrange(1, 7) if fails and r.random() < 0.3 else 0,
                'a': [r.randrange(len(u)), r.randrange(0, 1000)]} for _ in range(r.randrange(1, 40))]
        nul = r.choice([-1, -1, 0, 7])
        cases.append(Case('r%d' % j, 'T', [nul], ops + [{'o': 'quit', 'f': 0, 'a': [0, 0]}],
                          {'mayFail': False, 'n': len(u), 'empty': u.index(b'') + 1 if b'' in u else 0, 'null': nul}, u))
    check(chk, cases, ['default', 'asan', 'portable-asan'])
    cases = []
    for j in range(n_for(chk, 800, 15000)):
        u = universe(r)
        ops = [{'o': 'ins', 'f': 0, 'a': [r.randrange(len(u)), r.randrange(0, 1000)]} for _ in range(r.randrange(1, 40))]
        cases.append(Case('m%d' % j, 'T', [-1], ops + [{'o': 'quit', 'f': 0, 'a': [0, 0]}],
                          {'mayFail': True, 'n': len(u), 'empty': u.index(b'') + 1 if b'' in u else 0, 'null': -1,
                           'arena': r.randrange(400, 4000)}, u))
    check(chk, cases, ['portable-asan'])


# ---- sorts -----------------------------------------------------------------
def sort_op(r, alg, keys, size=None):
    n = len(keys)
    low, high = 0, n - 1
    if alg != 'h' and r.random() < 0.3 and n:
        low, high = r.randrange(-1, n), r.randrange(-1, n)
    return {'alg': alg, 'size': size or r.choice([1, 2, 3, 4, 8, 24]), 'order': r.choice([0, 0, 0, 1, 2, 3]), 'low': low,
            'high': high, 'keys': keys}


def c19(chk, n_for):
    r = random.Random('C19/%d' % chk.seed)
    cases, j = [], 0
    for depth in range(0, n_for(chk, 6, 8)):
        seqs = [[]] if depth == 0 else enumerate_ops(chk, 'O', depth, 3)
        for keys in seqs:
            for alg in 'hlq':
                cases.append(Case('e%d' % j, 'O', [], [sort_op(r, alg, keys)], {}))
                j += 1
    for j in range(n_for(chk, 3000, 60000)):
        n = r.choice([0, 1, 2, 3, 5, 8, 13, 20, 40, 60])
        m = r.choice([2, 3, 10, 120])
        keys = [r.randrange(m) for _ in range(n)]
        x = r.random()
        if x < 0.15:
            keys.sort()
        elif x < 0.3:
            keys.sort(reverse=True)
        cases.append(Case('r%d' % j, 'O', [], [sort_op(r, r.choice('hlq'), keys)], {}))
    check(chk, cases, ['default', 'asan'])


# ---- allocator -------------------------------------------------------------
def mem_random(r, n, big):
    ops, live, dead = [], [], []
    nxt = 0
    for _ in range(n):
        o = r.choices(['malloc', 'realloc', 'free', 'freebad', 'freeall'], [9, 6, 7, 0.6, 0.4])[0]
        sz = r.choice([0, 1, 7, 8, 9, 16, 23, 24, 40, 64, 100, r.randrange(1, big), r.randrange(1, big), big * 2])
        if o == 'malloc' and nxt < 60:
            ops.append({'o': o, 'id': nxt, 'n': sz})
            live.append(nxt)
            nxt += 1
        elif o == 'realloc' and (live or nxt < 60):
            if live and r.random() < 0.9:
                i = r.choice(live)
            else:
                if nxt >= 60:
                    continue
                i = nxt
                nxt += 1
                live.append(i)
            ops.append({'o': o, 'id': i, 'n': sz})
        elif o == 'free' and live:
            i = r.choice(live)
            live.remove(i)
            dead.append(i)
            ops.append({'o': o, 'id': i, 'n': 0})
        elif o == 'freebad' and (live or dead):
            ops.append({'o': o, 'id': r.choice(live + dead), 'n': 0})
        elif o == 'freeall':
            r.shuffle(live)
            ops += [{'o': 'free', 'id': i, 'n': 0} for i in live]
            dead += live
            live = []
            if nxt < 60:
                ops.append({'o': 'malloc', 'id': nxt, 'n': big * 3})
                live.append(nxt)
                nxt += 1
    return ops


def c16(chk, n_for):
    r = random.Random('C16/%d' % chk.seed)
    cases = []
    for j, ops in enumerate(enumerate_ops(chk, 'M', n_for(chk, 4, 5), sample=n_for(chk, 9000, 10**6))):
        size = r.choice([400, 480, 560, 700, 1000, 2000])
        cases.append(Case('e%d' % j, 'M', [size, r.randrange(4)], ops, {'size': size}))
    for j in range(n_for(chk, 4000, 80000)):
        size = r.choice([200, 300, 400, 600, 900, 1500, 3000, 6000]) + 8 * r.randrange(20) + r.choice([0, 0, 0, 1, 4])
        cases.append(Case('r%d' % j, 'M', [size, r.randrange(4)], mem_random(r, r.randrange(3, 80), max(20, size // r.choice([4, 8, 16]))),
                          {'size': size}))
    check(chk, cases, ['portable', 'portable-asan'])
