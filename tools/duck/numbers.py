"""Arithmetic: pairs of numbers are computed by real programs, and TLC compares every result with DuckNum."""
import json
import os
import random
import re
import struct
import subprocess
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from . import build, run, tlc

WIDE = lambda c: c in ('default', 'no-optimize')     # DuckLib's allocator takes too long for 66000 variables
OPS = ['+', '-', '*', '/', '=', '<', '>', 'not']


def limbs(n):
    out = []
    while n:
        out.append(n % 8192)
        n //= 8192
    return out


def unlimbs(m):
    return sum(x << (13 * i) for i, x in enumerate(m))


def bits(f):
    return struct.unpack('>Q', struct.pack('>d', f))[0]


def to_trace(s):
    """Driver notation to the specification's."""
    if s[:1] == 'b':
        return {'k': 'b', 'v': s[1] == '1'} if s[1] in '01' else {'k': 'odd'}
    if s[:1] == 'i':
        n = int(s[1:])
        return {'k': 'i', 'n': n < 0, 'm': limbs(abs(n))}
    if s[:1] == 'f':
        u = int(s[1:], 16)
        return {'k': 'f', 'n': u >> 63 == 1, 'x': (u >> 52) & 2047, 'm': limbs(u & ((1 << 52) - 1))}
    return {'k': 'err'} if s == 'err' else {'k': 'odd'}


def from_spec(v):
    """A value printed by TLC, in driver notation."""
    if v['k'] == 'b':
        return 'b1' if v['v'] else 'b0'
    if v['k'] == 'i':
        n = unlimbs(v['z']['m'])
        return 'i%d' % (-n if v['z']['n'] else n)
    f = v['f']
    m = unlimbs(f['m'])
    u = {'zero': 0, 'inf': 2047 << 52, 'nan': (2047 << 52) | (1 << 51)}.get(f['c'])
    if u is None:
        u = ((f['e'] + 1075) << 52 | (m - (1 << 52))) if m >> 52 else m
    return 'f%016x' % (u | (1 << 63 if f['n'] else 0))


def literal(s, r):
    """Source text that denotes exactly this value, or -."""
    if s[0] == 'b':
        return 'true' if s == 'b1' else 'false'
    if s[0] == 'i':
        n = int(s[1:])
        if abs(n) >= 1 << 63:
            return '-'
        return str(n) if r.random() < 0.8 else ('-' if n < 0 else '') + '0x%x' % abs(n)
    f = struct.unpack('>d', bytes.fromhex(s[1:]))[0]
    if f != f or f in (float('inf'), float('-inf')) or (f == 0 and s[1] == '8') or abs(f) > 1e30 or 0 < abs(f) < 1e-20:
        return '-'
    t = '%.15g' % f
    if float(t) != f:
        return '-'
    m = re.match(r'^(-?\d+)(?:\.(\d+))?(?:e([+-]\d+))?$', t)
    digits = (m.group(1) + (m.group(2) or '')).lstrip('-').lstrip('0')
    sc = int(m.group(3) or 0) - len(m.group(2) or '')
    if len(digits) > 15 or abs(sc) > 22:
        return '-'
    if m.group(3):
        return t.replace('e+', 'e') if '.' in t else t.replace('e', '.0e').replace('e+', 'e')
    return t if '.' in t else t + '.0'


def value(r):
    k = r.random()
    if k < 0.08:
        return r.choice(['b0', 'b1'])
    if k < 0.5:
        n = r.choice([lambda: r.randrange(-20, 21), lambda: r.randrange(-(1 << 31), 1 << 31), lambda: r.randrange(-(1 << 63), 1 << 63),
                      lambda: (1 << r.randrange(0, 63)) + r.randrange(-3, 4), lambda: -(1 << r.randrange(0, 63)) + r.randrange(-3, 4),
                      lambda: r.randrange(1 << 53, 1 << 62)])()
        return 'i%d' % max(-(1 << 63), min((1 << 63) - 1, n))
    f = r.choice([lambda: r.uniform(-10, 10), lambda: r.choice([0.0, -0.0, 1.0, -1.0, 0.5, 1e308, 5e-324, 0.1, 0.3, float('inf'), float('nan')]),
                  lambda: None, lambda: float(r.randrange(-(1 << 60), 1 << 60)), lambda: r.randrange(-1000, 1000) / 8.0,
                  lambda: r.uniform(-1, 1) * 2.0 ** r.randrange(-1070, 1000), lambda: round(r.uniform(-1000, 1000), r.randrange(0, 8))])()
    if f is None:
        return 'f%016x' % r.getrandbits(64)
    return 'f%016x' % bits(f)


def related(r, a):
    """A value with something in common with a: a small distance in value or in representation."""
    k = r.random()
    if k < 0.5:
        return value(r)
    if a[0] == 'i':
        n = int(a[1:])
        if k < 0.7:
            return 'i%d' % max(-(1 << 63), min((1 << 63) - 1, r.choice([n, -n, n + 1, n - 1, n // 2, ((1 << 63) - 1) // (n or 1), ((1 << 63) - 1) - n, -(1 << 63) - n])))
        return 'f%016x' % bits(float(n) if r.random() < 0.5 else float(n + r.randrange(-2, 3)))
    if a[0] == 'f':
        u = int(a[1:], 16)
        if k < 0.7:
            return 'f%016x' % ((u + r.choice([-1, 0, 1, 1 << 52, -(1 << 52), 1 << 63, r.randrange(1 << 20)])) % (1 << 64))
        f = struct.unpack('>d', bytes.fromhex(a[1:]))[0]
        if f == f and abs(f) < 9e18:
            return 'i%d' % (int(f) + r.randrange(-1, 2))
        if f == f and abs(f) != float('inf'):
            e = (u >> 52) & 2047
            return 'f%016x' % ((max(0, min(2046, e + r.choice([-53, -54, -52, 53, 1, -1]))) << 52) | r.choice([0, 1, (1 << 51), r.getrandbits(52)]))
    return value(r)


def boundary(chk):
    out, st = tlc.run('DuckNumGen')
    if 'No error has been found' not in out:
        raise tlc.TLCError(out[-3000:])
    chk.stats(st)
    res = []
    for m in re.findall(r'"@@P (\{.*\})"', out):
        d = json.loads(m.replace('\\"', '"'))
        res.append((from_spec(d['a']), from_spec(d['b'])))
    return sorted(set(res))


def drive(exe, pairs, wide, workers=8):
    lines = ['P %d %s %s %s %s %d\n' % (i, a, la, b, lb, wide and i % 400 == 7) for i, (a, la, b, lb) in enumerate(pairs)]
    res = [{o: {} for o in OPS} for _ in pairs]

    def go(w):
        p = subprocess.run([exe, '20'], input=''.join(lines[w::workers]).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           env=dict(os.environ, ASAN_OPTIONS=run.ASAN))
        return p.stdout.decode()
    with ThreadPoolExecutor(workers) as ex:
        for w, out in enumerate(ex.map(go, range(workers))):
            ls = out.split('\n')
            last = w
            for l in ls:
                if l.startswith('R '):
                    _, i, o, f, v = l.split()
                    res[int(i)][o].setdefault(v, []).append(int(f))
                    last = int(i)
            if 'Z' not in ls[-2:]:
                for o in OPS:
                    res[last][o].setdefault('crash', []).append(-1)
    return res


def judge(chk, pairs, configs, batch=8000):
    exes = build.build('drn', configs)
    r = random.Random('lit/%d' % chk.seed)
    pairs = [(a, literal(a, r), b, literal(b, r)) for a, b in pairs]
    chk.note('built', sorted(exes), len(pairs), 'pairs')
    tally = {}
    for i in range(0, len(pairs), batch):
        part = pairs[i:i + batch]
        merged = [{o: {} for o in OPS} for _ in part]
        for c in configs:
            for m, x in zip(merged, drive(exes[c], part, WIDE(c))):
                for o in OPS:
                    for v, forms in x[o].items():
                        m[o].setdefault(v, []).extend((c, f) for f in forms)
        f = os.path.join(build.scratch(), 'num.%d.json' % i)
        order = {}
        with open(f, 'w') as fh:
            for k, (p, m) in enumerate(zip(part, merged)):
                for o in OPS:
                    vs = sorted(m[o])
                    if not vs:
                        continue
                    t = 'n%d-%d' % (k, OPS.index(o))
                    order[t] = (p, o, vs, m[o])
                    fh.write(json.dumps({'id': t, 'op': o, 'a': to_trace(p[0]), 'b': to_trace(p[2]), 'r': [to_trace(v) for v in vs]}) + '\n')
        out, st = tlc.run('DuckNumTrace', env={'DUCK_IN': f})
        os.unlink(f)
        chk.stats(st)
        v, _ = tlc.verdicts(out)
        if len(v) != len(order):
            j = out.find('Error:')
            raise tlc.TLCError('%d verdicts for %d records\n%s' % (len(v), len(order), out[j:j + 2000]))
        n = 0
        for t, (p, o, vs, m) in order.items():
            kind, rest = v[t]
            tally[kind] = tally.get(kind, 0) + 1
            if kind == 'ok':
                chk.add('traces_validated_against_impl', sum(len(x) for x in m.values()))
                chk.sample({'operator': o, 'a': p[0], 'b': p[2], 'result': vs})
            elif kind == 'bad':
                again = {}
                for c in configs:
                    for x in drive(exes[c], [p], False, 1)[0][o]:
                        again[x] = 1
                if not any(x not in again for x in vs) or rest[0] and vs[int(rest[0]) - 1] in again:
                    n += 1
                    if n <= int(os.environ.get('DUCK_SHOW', 5)):
                        chk.violation(t, {'property': chk.prop, 'operator': o, 'a': p[0], 'b': p[2], 'literals': [p[1], p[3]],
                                          'results': {x: sorted(set(m[x])) for x in vs}, 'wrong': vs[int(rest[0]) - 1],
                                          'specification_expects': ' '.join(rest[1:])})
                else:
                    chk.note('not reproduced', p, o, vs)
        chk.note('judged', i + len(part), tally)
        if chk.violations:
            break
    chk.add('evaluations_decided', tally.get('ok', 0))
    chk.add('evaluations_left_open', tally.get('oos', 0))


def c08(chk, n_for):
    b = boundary(chk)
    r = random.Random('C08/%d' % chk.seed)
    n = n_for(chk, 6000, len(b))
    pairs = r.sample(b, min(n, len(b)))
    for _ in range(n_for(chk, 9000, 300000)):
        a = value(r)
        x = related(r, a)
        pairs.append((a, x) if r.random() < 0.5 else (x, a))
    pairs += [(a, b) for a in ('b0', 'b1') for b in ('b0', 'b1', 'i-1', 'i0', 'i2', 'f0000000000000000', 'f3ff8000000000000')]
    judge(chk, pairs, ['default', 'portable', 'no-optimize'] if chk.tier == 'quick' else ['default', 'portable', 'inference', 'no-optimize', 'asan'])
