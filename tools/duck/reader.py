"""The reader: texts are read by the real reader, and TLC compares what it made of them with DuckRead."""
import itertools
import json
import os
import random
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
from . import build, raw, run, sexp, tlc

CHARS = ['(', ')', '"', '\\', ';', ' ', '\n', 'a', '1', '-', '.', '#', 'e', 'x', '0']
TOK = ['(', ')', '(', ')', '"a b"', '"\\""', '"\\\\"', '"\\n;("', '""', ';c\n', ';c\r', ' ', '\n', '\t', '\x00', '0', '-1', '12', '007', '-0', '0x1F', '-0xa', '0X0', '0x', '9223372036854775807',
       '-9223372036854775807', '9223372036854775808', '2147483648', '0x7fffffffffffffff', '0x8000000000000000', '1.5', '-.5', '.5', '5.', '-5.', '1e3', '1E3', '-1.5e-3', '.5e+3', '1e', '1e-', '.e1', '.', '-', '-.', '--1',
       '1-', '-a', '1a', '1.5a', '1.5.2', '123456789012345', '0.000000000000001', '1e22', '1e23', '1e-22', '999999999999999e22', '12345678901234567890.5', 'true', 'false', 'truex', 'xtrue', 'true1', 'True', 'tru', 'a',
       'ab', 'a.b', '+', '*', '/', '<=', '&rest', 'a-1', '__a', '#', '#a', '#(', '##', '#1', '#true', "'a", "'", '`', ',', '@', '[', ']', '{', '}', '|', '\\', '\\a', '\xff', '\x7f', '~', 'quote', '"unended', '"a\\']


def exhaustive(n):
    return [''.join(x) for k in range(1, n + 1) for x in itertools.product(CHARS, repeat=k)]


def random_texts(r, n):
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.25:
            t = ''.join(r.choice(CHARS) for _ in range(r.randrange(4, 10)))
        elif k < 0.6:
            t = ''.join(r.choice(TOK) + r.choice(['', ' ', ' ', ';z\n']) for _ in range(r.randrange(1, 9)))
            if r.random() < 0.6:
                t = '(' + t + ')'
        elif k < 0.7:
            t = number(r)
            if r.random() < 0.4:
                t = '(a ' + t + r.choice([')', ' )', ' b)', '"s")', '(c))'])
        elif k < 0.78:
            t = ''.join(chr(r.randrange(256)) for _ in range(r.randrange(1, 24)))
        elif k < 0.84:
            t = '"' + ''.join(chr(r.choice([r.randrange(256), 92, 34, 110, 10])) for _ in range(r.randrange(0, 12))) + r.choice(['"', '"', ''])
        elif k < 0.9:
            a = r.choice(['(', '( ', '(x ', '((y) '])
            d = r.choice([3, 30, 200])
            t = a * d + r.choice(['', 'z', '1.5']) + ')' * (d + r.choice([0, 0, 0, -1, 1]))
        else:
            t = raw.text(r, r.choice(raw.SEEDS))
        out.append(t)
    return out


def number(r):
    """Integers and decimals of every length."""
    s = r.choice(['', '-', '', '-', '--'])
    k = r.random()
    if k < 0.3:
        s += str(r.choice([r.randrange(10), r.randrange(1 << 31), (1 << r.randrange(1, 66)) + r.randrange(-2, 3)]))
    elif k < 0.45:
        s += '0' + r.choice('xX') + ''.join(r.choice('0123456789abcdefABCDEFg') for _ in range(r.randrange(0, 18)))
    else:
        w = ''.join(r.choice('0123456789') for _ in range(r.choice([0, 1, 1, 2, 5, 9, 14])))
        f = ''.join(r.choice('0000123456789') for _ in range(r.choice([0, 1, 2, 3, 6, 13])))
        s += w + r.choice(['.', '.', '', '..']) + f
        if r.random() < 0.5:
            s += r.choice('eE') + r.choice(['', '-', '+', '-']) + str(r.choice([0, 1, 2, 5, 10, 21, 22, 23, 300, 1000])) + r.choice(['', '', 'e1', '.'])
    return s


def generated(chk, depth, layouts):
    """Texts written by the specification's own writer, and its laws checked on all of them."""
    out, st = tlc.run('DuckReadGen', env={'DUCK_DEPTH': str(depth), 'DUCK_LAYOUTS': str(layouts)})
    if 'No error has been found' not in out:
        raise tlc.TLCError(out[-3000:])
    chk.stats(st)
    return sorted({''.join(map(chr, json.loads(m))) for m in re.findall(r'"@@T (\[.*?\])"', out)})


def programs(n, seed):
    from . import gen
    out = []
    for i in range(n):
        t = sexp.text(gen.Gen(random.Random('%s/%d' % (seed, i)), forms=(1, 4)).chunk())
        out.append(t if len(t) < 4000 else '(a)')
    return out


def drive(exe, texts, workers=8):
    groups = [texts[i::workers] for i in range(workers)]

    def go(g):
        return subprocess.run([exe, '10'], input=b''.join(b'T %d\n%s\n' % (len(t), t) for t in g), stdout=subprocess.PIPE,
                              stderr=subprocess.DEVNULL, env=dict(os.environ, ASAN_OPTIONS=run.ASAN)).stdout.decode('latin-1')
    res = [None] * len(texts)
    with ThreadPoolExecutor(workers) as ex:
        for w, o in enumerate(ex.map(go, groups)):
            i = 0
            for l in o.split('\n'):
                if l.startswith('C '):
                    res[w + workers * i] = ['crash'] * 3
                    i += 1
                elif l.startswith('O ') and l.count(' ; ') == 2:
                    res[w + workers * i] = l[2:].split(' ; ')
                    i += 1
            if i != len(groups[w]):
                raise RuntimeError('driver read %d of %d texts' % (i, len(groups[w])))
    return res


def judge(chk, texts, configs, batch=30000):
    exes = build.build('drr', configs)
    chk.note('built', sorted(exes), len(texts), 'texts')
    texts = sorted({t.encode('latin-1') for t in texts})
    tally = {}
    for i in range(0, len(texts), batch):
        part = texts[i:i + batch]
        recs, origin = [], {}
        for c in configs:
            for t, o in zip(part, drive(exes[c], part)):
                k = (t, tuple(o))
                if k not in origin:
                    origin[k] = (len(recs), c)
                    recs.append({'id': 'r%d' % len(recs), 't': list(t), 'obs': o})
        f = os.path.join(build.scratch(), 'read.%d.json' % i)
        with open(f, 'w') as fh:
            for r in recs:
                fh.write(json.dumps(r) + '\n')
        out, st = tlc.run('DuckReadTrace', env={'DUCK_IN': f})
        os.unlink(f)
        chk.stats(st)
        v, _ = tlc.verdicts(out)
        if len(v) != len(recs):
            j = out.find('Error:')
            raise tlc.TLCError('%d verdicts for %d texts\n%s' % (len(v), len(recs), out[j:j + 2000]))
        n = 0
        for (t, o), (k, c) in origin.items():
            kind, rest = v['r%d' % k]
            tally[kind] = tally.get(kind, 0) + 1
            if kind == 'ok':
                chk.sample({'text': t.decode('latin-1'), 'read': o[0]})
            elif kind == 'bad':
                again = drive(exes[c], [t])[0]
                if tuple(again) != o:
                    chk.note('not reproduced', t, o, again)
                    continue
                n += 1
                if n <= int(os.environ.get("DUCK_SHOW", 5)):
                    chk.violation('text%d' % k, {'property': chk.prop, 'build': c, 'text': t.decode('latin-1'), 'observed': o,
                                                 'reading': int(rest[0]), 'specification_expects': ' '.join(rest[1:])})
        chk.note('judged', i + len(part), tally, 'rejected', n)
        if chk.violations:
            break
    chk.add('traces_validated_against_impl', tally.get('ok', 0))
    chk.add('texts_decided', tally.get('ok', 0))
    chk.add('texts_out_of_scope', tally.get('oos', 0))
