"""Programs for parenthesis inference.  Ordinary programs have their names declared, their quoted names marked, and
parentheses the arities determine taken out at random.  Only the specification says what the result means: the arities
known here serve to produce programs worth asking about."""
import json
import random
from . import gen, lang, macros, run, sexp, tlc
from .sexp import Cb, Id, Lit, S

I = Id


def F(ps, rest='', n=0):
    return ('F', ps, rest, n)


TYPES = {}
for _n, _t in (('nop make-type host-gc host-fail gensym', F('')),
               ('not quote car cdr null? type-of composite-value composite-function make-string length symbol-string symbol-id '
                'emit host-user intern', F('I')),
               ('* / + - = < > make-vector get-vector-element cons set-car set-cdr set-composite-value set-composite-function '
                'concatenate host-call read', F('II')),
               ('if set-vector-element make-instance substring host-args', F('III')),
               ('funcall apply while when unless', F('I', 'I', 1)), ('noscope list vector', F('', 'I', 0)), ('comptime', F('', 'I', 1)),
               ('declare', F('LL', 'I', 0)), ('setq var global', F('LI')), ('defun defmacro', F('LL', 'I', 1)), ('lambda', F('L', 'I', 1))):
    for _k in _n.split():
        TYPES[_k] = _t
        if _k not in ('host-gc', 'host-fail', 'gensym', 'emit', 'host-user', 'intern', 'host-call', 'read', 'host-args'):
            TYPES['__' + _k] = _t
L = ('L', '', '', 0)


def mark(x):
    """Quoted data, with its names marked."""
    if isinstance(x, Id):
        return Cb(x)
    if isinstance(x, list) and any(has_id(y) for y in x):
        return Lit(x)
    return x


def has_id(x):
    return isinstance(x, (Id, Cb)) or isinstance(x, list) and any(has_id(y) for y in x)


def type_of_params(ps):
    ps = [p for p in ps if isinstance(p, (Id, Cb))]
    if len(ps) >= 2 and ps[-2] == '&rest':
        return F('I' * (len(ps) - 2), 'I', 0)
    return F('I' * len(ps))


def type_from(x):
    if not isinstance(x, list):
        return L if x == 'L' else ('I', '', '', 0)
    if len(x) >= 3 and x[-3] == '&rest' and isinstance(x[-2], int):
        return F(''.join(str(y) for y in x[:-3] if isinstance(y, Id)), str(x[-1]) if isinstance(x[-1], Id) else 'N', x[-2])
    return F(''.join(str(y) if isinstance(y, Id) else 'N' for y in x))


class Eraser:
    def __init__(self, r, need=None, erase=0.6, noise=0.0):
        self.r, self.need, self.erase, self.noise = r, need, erase, noise
        self.scopes = [dict(TYPES)]
        self.seen = {}      # undeclared names: the arities they were called with, None as a value
        self.scripts = {}

    def find(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        return None

    def declare(self, n, t):
        self.scopes[-1][str(n)] = t

    def chance(self, p):
        return self.r.random() < p

    def arg(self, x, ty):
        return self.form(x) if ty == 'I' else [x]

    def form(self, x, splice=True):
        if isinstance(x, Id):
            t = self.find(x)
            if t is None:
                self.seen.setdefault(str(x), set()).add(None)
            elif t[0] == 'F' and not self.chance(self.noise):
                return [Cb(x)]
            elif self.chance(0.02):
                return [Cb(x)]
            return [x]
        if not isinstance(x, list) or isinstance(x, Lit) or not x:
            return [x]
        if isinstance(x[0], Cb):
            return [[x[0]] + self.args(x[1:])]
        if not isinstance(x[0], Id):
            self.scopes.append({})
            out = []
            for i, y in enumerate(x):
                out += self.form(y, i > 0)
            self.scopes.pop()
            return [out]
        h = x[0]
        t = self.find(h)
        if t is None:
            self.seen.setdefault(str(h), set()).add(len(x) - 1)
        if t is None or t[0] != 'F':
            return [[h] + self.args(x[1:])]
        k = len(x) - 1
        ps = t[1]
        if k < len(ps) or (not t[2] and k > len(ps)):
            # the wrong number of arguments: leave it to the run
            return [[Cb(h) if not self.chance(self.noise) else h] + self.args(x[1:])]
        name = str(h).removeprefix('__')
        toks = [h]
        if name in ('var', 'global'):
            self.declare(x[1], L)
            toks += [x[1]] + self.form(x[2])
        elif name in ('defun', 'defmacro', 'lambda'):
            d = 0 if name == 'lambda' else 1
            toks += x[1:2 + d]
            pl = x[1 + d] if isinstance(x[1 + d], list) else []
            pt = type_of_params(pl)
            self.scopes.append({})
            for p in pl:
                if isinstance(p, (Id, Cb)) and p != '&rest':
                    self.declare(p, L)
            self.declare('self', pt)
            for y in x[2 + d:]:
                toks += self.form(y)
            self.scopes.pop()
            if d:
                self.declare(x[1], pt)
        elif name == 'quote':
            toks.append(mark(x[1]))
        elif name == 'declare':
            toks += x[1:3]
            if len(x) > 3:
                toks += [self.script(y) for y in x[3:]]
            if isinstance(x[1], (Id, Cb)):
                self.declare(x[1], type_from(x[2]))
        elif name == 'my-var':
            self.declare(x[1], L)
            toks += [x[1]] + self.form(x[2])
        elif name == 'let1':
            toks += [x[1]] + self.form(x[2])
            self.scopes.append({})
            self.declare(x[1], L)
            toks += self.form(x[3])
            self.scopes.pop()
        elif name == 'deffn':
            toks += x[1:4]
            self.scopes.append({})
            self.declare('self', type_from(x[2]))
            toks += self.form(x[4])
            self.scopes.pop()
            self.declare(x[1], type_from(x[2]))
        else:
            if not any(has_call(y) for y in x) and self.chance(0.02):
                return [Lit(x)]
            for i, y in enumerate(x[1:]):
                toks += self.arg(y, ps[i] if i < len(ps) else t[2])
        if splice and k == len(ps) + (t[3] if t[2] else 0) and self.chance(self.erase):
            return toks
        return [toks]

    def args(self, xs):
        out = []
        for y in xs:
            out += self.form(y)
        return out

    def script(self, x):
        """Scripts are inferred, too, where they are declared."""
        return x


def has_call(x):
    return isinstance(x, list) and bool(x)


def convert(r, t, erase=0.6, noise=0.03):
    """A program without inference, rewritten for inference."""
    seed = r.getrandbits(32)
    a = Eraser(random.Random(seed), erase=0, noise=0)
    a.form(t)
    decls = []
    for n in sorted(a.seen):
        k = a.seen[n]
        if r.random() < noise:
            continue
        if None not in k and len(k) == 1 and r.random() < 0.6:
            m = list(k)[0]
            ty = [I(r.choice('IIIIIL')) for _ in range(m)]
            if m and r.random() < 0.2:
                j = r.randrange(0, m)
                ty = ty[:j] + [I('&rest'), r.choice([m - j, m - j, 0, 1]), I('I')]
        else:
            ty = I('L')
        decls.append([I('declare'), I(n), ty])
    if isinstance(t, list) and t and isinstance(t[0], list):
        t = t[:1] + decls + t[1:]
    else:
        t = [[]] + decls + [t]
    # more about the functions the program defines
    t = more_types(r, t)
    out = Eraser(random.Random(seed), erase=erase, noise=noise).form(t, False)[0]
    for _ in range(r.choice([0, 0, 0, 0, 0, 0, 1, 2])):
        out = wild(r, out)
    return out


def more_types(r, t):
    out = []
    for x in t:
        out.append(x)
        if isinstance(x, list) and len(x) > 3 and x[0] in ('defun', 'defmacro') and isinstance(x[2], list) and r.random() < 0.15:
            n = len([p for p in x[2] if p != '&rest'])
            ty = [I(r.choice('IIL')) for _ in range(n)]
            if n and '&rest' in x[2]:
                ty = ty[:-1] + [I('&rest'), r.choice([0, 1, 2, -1]), I(r.choice('IIIL'))]
            out.append([I('declare'), x[1], ty])
    return out


def wild(r, t):
    """One token changed."""
    if not isinstance(t, list) or not t:
        return t
    i = r.randrange(len(t))
    x = t[i]
    if isinstance(x, list) and x and r.random() < 0.75:
        y = wild(r, x)
        if type(x) is Lit:
            y = Lit(y)
        u = t[:i] + [y] + t[i + 1:]
    else:
        k = r.randrange(6)
        if k == 0:
            u = t[:i] + t[i + 1:]
        elif k == 1:
            u = t[:i] + [x] + t[i:]
        elif k == 2 and isinstance(x, Id):
            u = t[:i] + [Cb(x)] + t[i + 1:]
        elif k == 2 and isinstance(x, Cb):
            u = t[:i] + [Id(x)] + t[i + 1:]
        elif k == 3 and isinstance(x, list):
            u = t[:i] + [(Lit if type(x) is list else list)(x)] + t[i + 1:]
        elif k == 4 and isinstance(x, list):
            u = t[:i] + list(x) + t[i + 1:]
        else:
            u = t[:i] + [t[i:i + 2]] + t[i + 2:]
    return Lit(u) if isinstance(t, Lit) else u


P = sexp.parse
MACROS = P('''
(defmacro my-var (name value) (list (quote var) name value))
(declare my-var (L I) (declare-identifier (infer-and-get-next-argument) (quote #L)))
(defmacro let1 (name value body) (list (list) (list (quote var) name value) body))
(declare let1 (L I I)
 ((var name (infer-and-get-next-argument))
  (infer-and-get-next-argument)
  (declaration-scope (declare-identifier name (quote #L)) (infer-and-get-next-argument))))
(defmacro deffn (name type params body) (list (quote defun) name params body))
(declare deffn (L L L I)
 ((var name (infer-and-get-next-argument)) (var type (infer-and-get-next-argument)) (infer-and-get-next-argument)
  (declaration-scope (declare-identifier (quote #self) type) (infer-and-get-next-argument))
  (declare-identifier name type)))
''')
USES = [P(x) for x in '''
(my-var ya 5) (emit (+ ya 1))
(my-var yb (+ 1 2)) (my-var yc (- yb 1)) (emit (list yb yc))
(let1 yd 4 (emit (* yd yd)))
(let1 ye (+ 1 1) (let1 yf (+ ye 1) (emit (cons ye yf))))
(deffn ff (I I) (a b) (+ #a #b)) (emit (ff 1 (ff 2 3)))
(deffn fg (I &rest 2 I) (a &rest b) (emit (cons #a #b))) (emit (fg 1 2 3)) (fg 1)
(deffn fh (L) (a) (emit #a)) (fh (+ 1 2))
(deffn fi (I) (n) (if (> #n 0) (self (- #n 1)) #n)) (emit (fi 3))
((my-var yg 1) (emit yg)) (emit (quote yg))
(my-var yh (lambda (x) (+ x 1))) (emit (yh 4)) (emit (funcall yh 5))
'''.strip().split('\n')]


def with_macros(r):
    """Programs over macros whose types need scripts."""
    t = [[]] + [x for x in MACROS]
    for _ in range(r.randrange(1, 4)):
        t += r.choice(USES)
    if r.random() < 0.3:
        t = [[]] + t[1:4] + [t[4:]] if r.random() < 0.5 else [[]] + t[4:]
    return t


# ---- small programs from the specification: what inference makes of a form is shown by quoting it ----

DECLS = P('(declare f (I I)) (declare v (I &rest 1 I)) (declare l (L I)) (declare x L) (declare g (&rest -1 L)) (declare k ()) (declare i I)')


def shown(toks, decls=True):
    """A program that prints the tree a sequence of forms is inferred to."""
    return [[]] + (DECLS if decls else []) + [[I('emit'), [I('quote'), [[]] + P(' '.join(toks))]]]


def enumerated(chk, n, alphabet):
    out, st = tlc.run('DuckInferGen', env={'DUCK_LEN': str(n), 'DUCK_ALPHABET': alphabet}, mem='8g', timeout=800)
    if st['rc'] != 0:
        raise tlc.TLCError(lang.err_lines(out))
    chk.stats(st)
    return sorted(json.loads(json.loads(l)[4:]) for l in out.split('\n') if l.startswith('"@@T '))


def random_tokens(r, n, words):
    """n tokens and balanced parentheses."""
    out, depth = [], 0
    while len(out) < n or depth:
        k = r.random()
        if len(out) < n and k < 0.2:
            out.append('(' if r.random() < 0.9 else '#(')
            depth += 1
        elif depth and (k < 0.4 or len(out) >= n):
            out.append(')')
            depth -= 1
        else:
            out.append(r.choice(words))
    return out


CALLS = '1 f f v l g k x i #f list quote if + noscope z'.split()
BINDERS = 'var defun lambda self a b &rest 1 #a + 2 list () (a) (a) (a,b) (a,&rest,b)'.split()


def in_sessions(prefix, programs, size=8):
    return [run.Session('%s%d' % (prefix, i), [o for p in programs[i:i + size] for o in (('X', p), ('R',))])
            for i in range(0, len(programs), size)]


def c20(chk, n_for):
    v = [lang.Variant('inference', flags='i'), lang.Variant('inference-asan', flags='i')]
    quick = chk.tier == 'quick'
    r = random.Random('C20/%d' % chk.seed)
    # every short text
    for a, words, k in (('calls', CALLS, 4), ('binders', BINDERS, 4)):
        t = enumerated(chk, k if quick else 5, a)
        if quick:
            short = [x for x in t if len(x) <= 3]
            t = short + r.sample([x for x in t if len(x) > 3], 2000)
        t += [random_tokens(r, r.randrange(5, 14), words) for _ in range(n_for(chk, 1500, 40000))]
        lang.run_language(chk, in_sessions(a, [shown([w.replace(',', ' ') for w in x], a == 'calls') for x in t]), v)
    # ordinary programs and macros
    s = []
    for i in range(n_for(chk, 900, 30000)):
        r = random.Random('C20/p%d/%d' % (chk.seed, i))
        g = gen.Gen(r, forms=(2, 6))
        ops = [('X', convert(r, g.chunk()))]
        while r.random() < 0.3:
            ops += [(o,) for o in r.choices(('R', 'P', 'G'), (6, 2, 1))] + [('X', convert(r, g.chunk()))]
        s.append(run.Session('p%d' % i, ops))
    for i in range(n_for(chk, 300, 10000)):
        r = random.Random('C20/m%d/%d' % (chk.seed, i))
        s.append(run.Session('m%d' % i, [('X', convert(r, macros.MacroGen(r, forms=(1, 4)).macrochunk()))]))
    for i in range(n_for(chk, 300, 8000)):
        r = random.Random('C20/u%d/%d' % (chk.seed, i))
        s.append(run.Session('u%d' % i, [('X', convert(r, with_macros(r)))]))
    lang.run_language(chk, s, v)
