"""The embedding interface: histories of operations are run by a C driver, and TLC checks each against DuckApi."""
import json
import os
import random
import re
import struct
import subprocess
from concurrent.futures import ThreadPoolExecutor
from . import build, run, tlc

PREDS = ['isNone', 'isBoolean', 'isInteger', 'isFloat', 'isString', 'isSymbol', 'isType', 'isComposite', 'isList', 'isNil', 'isCons',
         'isVector', 'isClosure', 'isUser', 'isEmpty']
ARITY = {'f0': 1, 'f1': 2, 'f2': 1, 'f3': 1, 'f4': 0, 'f5': 1, 'f6': 1, 'f7': 2, 'f8': 2, 'f9': 2, 'f10': 2, 'f11': 1, 'f12': 1,
         'h0': 0, 'h1': 1, 'h2': 0, 'h3': 2}
INTS = [0, 1, -1, 7, 255, -256, 65536, (1 << 31) - 1, -(1 << 31), 1 << 40, (1 << 63) - 1, -(1 << 63)]


class Op(tuple):
    def __new__(cls, op, a=0, b=0, s=''):
        return tuple.__new__(cls, (op, a, b, s))

    def line(self):
        return '%s %d %d %s' % self


def dotted(bs):
    return '.'.join(map(str, bs)) or '-'


class Gen:
    """Random histories.  `kinds` is a guess at what the stack holds; nothing depends on its being right."""

    def __init__(self, seed, users=0.05, calls=1.0, gc=0.02, wild=0.2):
        self.r = random.Random(seed)
        self.kinds, self.ops = [], []
        self.users, self.calls, self.gc, self.wild = users, calls, gc, wild
        self.nuser = 0

    def add(self, *a):
        self.ops.append(Op(*a))

    def index(self, *want):
        """A stack index, of something of a wanted kind if there is one."""
        r, n = self.r, len(self.kinds)
        c = [i for i, k in enumerate(self.kinds) if k in want]
        if c and r.random() > self.wild:
            i = r.choice(c)
        else:
            i = r.randrange(-3, n + 3) if r.random() < 0.3 else r.randrange(n) if n else 0
        return i - n if r.random() < 0.7 and 0 <= i < n else i if i >= 0 else -n + i

    def bytes(self):
        r = self.r
        return [r.choice([0, 10, 34, 65, 97, 127, 128, 255, r.randrange(256)]) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5]))]

    def push(self, *kinds):
        r = self.r
        k = r.choice(kinds or ['bool', 'int', 'int', 'float', 'string', 'string', 'symbol', 'type', 'comp', 'comp', 'nil', 'cons', 'cons', 'cons',
                               'vec', 'vec', 'clo', 'clo', 'fun', 'newtype', 'global', 'upclo'])
        if r.random() < self.users:
            k = 'user'
        if k == 'bool':
            self.add('pushBoolean')
            if r.random() < 0.8:
                self.add('setBoolean', r.randrange(2))
        elif k == 'int':
            self.add('pushInteger')
            if r.random() < 0.9:
                self.add('setInteger', 0, 0, str(r.choice(INTS) if r.random() < 0.3 else r.randrange(100)))
        elif k == 'float':
            self.add('pushFloat')
            if r.random() < 0.8:
                self.add('setFloat', 0, 0, struct.pack('>d', r.choice([1.5, -0.0, 1e300, float('inf'), r.uniform(-9, 9)])).hex())
        elif k == 'string':
            self.add('pushString', 0, 0, dotted(self.bytes()))
        elif k == 'symbol':
            if r.random() < 0.6:
                self.add('pushSymbol', r.randrange(200), 0, dotted(self.bytes()))
            else:
                self.add('pushCompressedSymbol', r.randrange(200))
        elif k == 'type':
            self.add('pushExistingType', r.choice([0, 2, 5, 19, 20, 21, 300, r.randrange(1000)]))
        elif k == 'newtype':
            self.add('pushNewType')
            k = 'type'
        elif k == 'comp':
            self.add('pushComposite', r.randrange(40))
        elif k == 'nil':
            self.add('pushNil')
        elif k == 'cons':
            self.add('pushCons')
        elif k == 'vec':
            self.add('pushVector', r.choice([0, 1, 1, 2, 3, 5, r.randrange(30)]))
        elif k == 'clo':
            self.add('pushGlobal', 0, 0, 'f%d' % r.randrange(13))
        elif k == 'fun':
            self.add('pushGlobal', 0, 0, 'h%d' % r.randrange(4))
        elif k == 'upclo':
            f = r.choice(['f5', 'f8'])
            self.add('pushGlobal', 0, 0, f)
            for _ in range(ARITY[f]):
                self.add('push', -2) if r.random() < 0.5 else self.add('pushInteger')
            self.add('call', ARITY[f], ARITY[f])
            self.add('copyFromTop', -2)
            self.add('pop')
        elif k == 'global':
            self.add('pushGlobal', 0, 0, r.choice(['g0', 'g1', 'g2', 'g9']))
            k = '?'
        elif k == 'user':
            self.add('pushUser', self.nuser % 60 if r.random() < 0.9 else r.randrange(4), r.randrange(2) if self.kinds and self.kinds[-1] in ('cons', '?') else 0)
            self.nuser += 1
        self.kinds.append(k)

    def call(self):
        r = self.r
        f = r.choice([x for x in ARITY if x != 'h2'])
        n = ARITY[f]
        if r.random() < 0.1 and f[0] == 'f':
            n = max(0, n + r.choice([-1, 1, 2]))
        if f == 'f2':
            n += r.randrange(3)
        if r.random() < 0.7:
            self.add('pushGlobal', 0, 0, f)
            self.kinds.append('clo')
            start = len(self.kinds)
            if f in ('f7', 'f10', 'h3'):
                self.add('pushGlobal', 0, 0, r.choice(['f0', 'f3', 'f5', 'f6', 'f11', 'h1', 'f2', 'f4', 'f10', 'f12']))
                self.kinds.append('clo')
            while len(self.kinds) - start < n:
                if r.random() < 0.5 and len(self.kinds) > 1:
                    self.add('push', -r.randrange(1, len(self.kinds)))
                    self.kinds.append('?')
                else:
                    self.push()
            n = len(self.kinds) - start if n or f in ('f7', 'f10', 'h3') else n
            self.add('call', n, n)
        else:
            i = self.index('clo', 'fun', 'upclo', 'comp')
            b = -1 - i if i < 0 else len(self.kinds) - 1 - i
            n = r.randrange(3)
            if b < 0:
                return
            self.add('call', n, b)
        del self.kinds[len(self.kinds) - n:]
        self.kinds.append('?')

    def step(self):
        r, ks = self.r, self.kinds
        if r.random() < self.gc:
            self.add('gc')
            return
        if len(ks) > 9 and r.random() < 0.5:
            n = r.randrange(1, 7)
            self.add('popSeveral', n)
            del ks[-n:]
            return
        if not ks and r.random() < 0.85:
            self.push()
            return
        top = ks[-1] if ks else '?'
        x = r.random()
        if x < 0.22:
            self.push()
        elif x < 0.30:
            i = self.index()
            self.add('push', i)
            if -len(ks) <= i < len(ks):
                ks.append(ks[i])
        elif x < 0.34:
            self.add('pop')
            ks[-1:] = []
        elif x < 0.37:
            i = self.index()
            self.add('copyFromTop', i)
            if ks and -len(ks) <= i < len(ks):
                ks[i] = ks[-1]
        elif x < 0.37 + 0.06 * self.calls:
            self.call()
        elif x < 0.48:
            if r.random() < self.wild:
                self.add(r.choice(PREDS + ['typeOf', 'copyBoolean', 'copySignedInteger', 'copyUnsignedInteger', 'copyFloat', 'copyString', 'copySymbolName',
                                           'copySymbolId', 'copyType', 'copyCompositeType', 'copyClosureName', 'closureBytecode', 'copyClosureArity',
                                           'copyClosureIsVariadic', 'length', 'stackLength', 'pushHeld']))
                if self.ops[-1][0] == 'pushHeld' and top == 'user':
                    ks.append('?')
            else:
                c = {'bool': ['copyBoolean'], 'int': ['copySignedInteger', 'copyUnsignedInteger'], 'float': ['copyFloat'], 'string': ['copyString', 'length', 'isEmpty'],
                     'symbol': ['copySymbolName', 'copySymbolId'], 'type': ['copyType'], 'comp': ['copyCompositeType'],
                     'clo': ['closureBytecode', 'copyClosureArity', 'copyClosureIsVariadic', 'copyClosureName', 'length', 'isEmpty'],
                     'upclo': ['copyClosureArity', 'length', 'isEmpty'], 'user': ['pushHeld']}.get(top, ['length', 'isEmpty', 'typeOf', r.choice(PREDS)])
                o = r.choice(c)
                self.add(o)
                if o == 'pushHeld':
                    ks.append('?')
        elif x < 0.60:
            o = r.choice(['pushCar', 'pushFirst', 'pushCdr', 'pushRest', 'pushElement', 'pushElement'])
            if top not in ('cons', 'vec', 'string', 'upclo', '?', 'nil') and r.random() > self.wild:
                self.push('cons', 'vec', 'string', 'nil', 'upclo')
            top = ks[-1] if ks else '?'
            if o == 'pushElement':
                self.add(o, r.choice([0, 0, 1, 1, 2, 3, r.randrange(-2, 8)]))
            else:
                self.add(o)
            if top in ('cons', 'vec', 'string', '?', 'upclo', 'nil'):
                ks.append({'string': 'int'}.get(top, '?') if o in ('pushCar', 'pushFirst', 'pushElement') else top)
        elif x < 0.84:
            i = self.index('cons', 'vec', '?') if r.random() < 0.93 else self.index('upclo')
            o = r.choice(['setCar', 'setFirst', 'setCdr', 'setRest', 'setElement', 'setElement'])
            if o == 'setElement':
                self.add(o, r.choice([0, 0, 1, 1, 2, r.randrange(-2, 6)]), i)
            else:
                self.add(o, i)
        elif x < 0.90:
            if r.random() < 0.5:
                self.add(r.choice(['setCompositeValue', 'setCompositeFunction']), self.index('comp'))
            else:
                if top != 'comp' and r.random() > self.wild:
                    self.push('comp')
                self.add(r.choice(['pushCompositeValue', 'pushCompositeFunction']))
                ks.append('?')
        elif x < 0.93:
            o = r.choice([('setBoolean', r.randrange(2), 0, ''), ('setInteger', 0, 0, str(r.choice(INTS))), ('setFloat', 0, 0, '4004000000000000')])
            self.add(*o)
        elif x < 0.97:
            self.add('setGlobal' if ks and r.random() < 0.6 else 'pushGlobal', 0, 0, r.choice(['g0', 'g1', 'g2']))
            if self.ops[-1][0] == 'pushGlobal':
                ks.append('?')
        elif x < 0.985:
            n = r.choice([0, 1, 2, r.randrange(20)])
            self.add('popSeveral', n)
            if n <= len(ks):
                del ks[len(ks) - n:]
        elif x < 0.99:
            self.add(r.choice(['popAll', 'softReset']))
            del ks[:]
        else:
            self.add('stackLength')

    def history(self, n):
        while len(self.ops) < n:
            self.step()
        if self.r.random() < 0.5:
            self.add('gc')
        return self.ops


def generated(chk, depth, height, wide):
    """Every operation from every stack reached by a short history of the specification, whose laws are checked on them."""
    out, st = tlc.run('DuckApiGen', env={'DUCK_DEPTH': str(depth), 'DUCK_HEIGHT': str(height), 'DUCK_WIDE': str(int(wide))})
    if 'No error has been found' not in out:
        raise tlc.TLCError(out[-3000:])
    chk.stats(st)
    hs = sorted(set(re.findall(r'"@@H <<(.*)>>"', out)))
    res = []
    for i, h in enumerate(hs):
        ops = []
        for l in re.findall(r'\\"(.*?)\\"', h):
            f = l.split(' ')
            ops.append(Op(f[0], int(f[1]), int(f[2]), f[3]))
        res.append(('g%d' % i, 3000, 0, ops))
    chk.note('histories from the specification', len(res))
    return res


def drive(exe, sessions, workers=8, tmo=20):
    """sessions: [(id, heap, collect, ops)] -> {id: {'base', 'obs': [...], 'quit', 'end'}}"""
    def go(w):
        text = ''.join('S %s %d %d\n%s\nE\n' % (i, h, c, '\n'.join(o.line() for o in ops)) for i, h, c, ops in sessions[w::workers])
        p = subprocess.run([exe, str(tmo)], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           env=dict(os.environ, ASAN_OPTIONS=run.ASAN))
        return p.stdout.decode()
    res = {}
    with ThreadPoolExecutor(workers) as ex:
        for out in ex.map(go, range(workers)):
            cur = None
            for l in out.split('\n'):
                if l.startswith('S '):
                    cur = res[l[2:]] = {'base': 20, 'obs': [], 'quit': [], 'end': 'crash'}
                elif l.startswith('B '):
                    cur['base'] = int(l[2:])
                elif l.startswith('O ') and l.count(' ') >= 3:
                    f = l.split(' ')
                    cur['obs'].append((f[1], f[2], counts(f[3]), f[4:]))
                elif l.startswith('Q '):
                    cur['quit'] = counts(l[2:])
                elif l.startswith('E '):
                    cur['end'] = l.split()[2]
            if not out.endswith('Z\n'):
                raise RuntimeError('driver stopped: ' + out[-300:])
    return res


def counts(s):
    return [] if s == '-' else [[int(y) for y in x.split(':')] for x in s.split(',')]


def record(sid, heap, ops, r):
    out = []
    for o, (res, val, d, stk) in zip(ops, r['obs']):
        bs = [int(x) for x in o[3].split('.')] if o[0] in ('pushString', 'pushSymbol') and o[3] != '-' else []
        nt = int(stk[-1][1:]) if stk and re.match(r't\d+$', stk[-1]) and len(stk[-1]) < 9 else 0
        out.append({'o': {'op': o[0], 'a': o[1], 'b': o[2], 's': o[3], 'bs': bs},
                    'x': {'r': res, 'out': val, 'd': d, 'stk': stk, 'nt': nt,
                          'neg': bool(stk) and stk[-1].startswith('i-')}})
    return {'id': sid, 'heap': heap, 'base': r['base'], 'ops': out, 'end': r['end'], 'quit': r['quit']}


def judge(chk, plan, batch=5000):
    """plan: [(config, [(id, heap, collect, ops)])]; every history is run under its configuration and judged by TLC."""
    exes = build.build('dla', sorted({c for c, _ in plan}))
    chk.note('built', sorted(exes))
    tally = {}
    for cfg, sessions in plan:
        for i in range(0, len(sessions), batch):
            part = sessions[i:i + batch]
            res = drive(exes[cfg], part)
            f = os.path.join(build.scratch(), 'api.%s.%d.json' % (cfg, i))
            by = {}
            with open(f, 'w') as fh:
                for s in part:
                    if s[0] not in res:
                        raise RuntimeError('no answer for ' + s[0])
                    by[s[0]] = s
                    fh.write(json.dumps(record(s[0], s[1], s[3], res[s[0]])) + '\n')
            out, st = tlc.run('DuckApiTrace', env={'DUCK_IN': f})
            os.unlink(f)
            chk.stats(st)
            v, _ = tlc.verdicts(out)
            if len(v) != len(part):
                j = out.find('Error:')
                raise tlc.TLCError('%d verdicts for %d histories\n%s' % (len(v), len(part), out[j:j + 3000]))
            for sid, (kind, rest) in v.items():
                n = int(rest[0]) if rest else 0
                tally[kind] = tally.get(kind, 0) + 1
                chk.add('operations_judged', n - 1)
                _, heap, gc, ops = by[sid]
                if kind == 'ok':
                    chk.add('traces_validated_against_impl', 1)
                    chk.sample({'history': [o.line() for o in ops][:40]})
                elif kind == 'bad':
                    again = drive(exes[cfg], [by[sid]], workers=1)[sid]
                    if again['obs'] != res[sid]['obs'][:len(again['obs'])]:
                        chk.note('not repeatable', sid)
                    chk.violation(sid, {'configuration': cfg, 'heap': heap, 'collect': gc, 'operations': [o.line() for o in ops][:n + 1],
                                        'problem': ' '.join(rest), 'recorded': [list(x) for x in res[sid]['obs'][max(0, n - 3):n + 1]]})
                    if os.environ.get('DUCK_SHOW'):
                        print(cfg, sid, ' '.join(rest)[:600], '| next:', ops[n - 1].line() if n <= len(ops) else '')
    chk.note('judged', tally)
    return tally
