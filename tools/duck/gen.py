"""Random duck-lisp programs.  The generator only has to be interesting: what a program means is the specification's
business, and a program the specification calls out of scope is not counted."""
import random
from . import sexp
from .sexp import Id, S, F, q

I = Id


class Scope:
    def __init__(self, parent=None, fn=None):
        self.parent = parent
        self.vars = {}      # name -> type
        self.funs = {}      # name -> (nparams, variadic, rettype)
        self.fn = fn if fn is not None else (parent.fn if parent else None)

    def all_vars(self):
        d = dict(self.parent.all_vars()) if self.parent else {}
        d.update(self.vars)
        return d

    def all_funs(self):
        d = dict(self.parent.all_funs()) if self.parent else {}
        d.update(self.funs)
        return d


TYPES = ['int', 'bool', 'flt', 'str', 'list', 'vec', 'sym', 'clo']

DEFAULT = {
    'ill': 0.002,        # chance of an operand of an arbitrary type
    'undef': 0.002,      # chance of an undefined name
    'depth': 4,
    'forms': (4, 12),
    'types': ['int', 'int', 'int', 'bool', 'flt', 'str', 'list', 'list', 'vec', 'sym', 'clo', 'comp'],
    'stmts': {'emit': 8, 'var': 6, 'setq': 5, 'defun': 4, 'global': 2, 'setglobal': 1, 'if': 2, 'when': 2, 'unless': 1,
              'while': 2, 'scope': 1, 'mutate': 3, 'noscope': 0.5, 'counter': 1, 'rec': 1, 'shadow': 0.3, 'gc': 0.5,
              'loopclo': 0.7, 'mutual': 0.2, 'fail': 0, 'capglobal': 0, 'pad': 0, 'manyvars': 0, 'wideops': 0, 'callback': 0,
              'useglobal': 0, 'varcall': 0, 'alias': 0, 'strings': 0, 'composite': 0, 'nestclo': 0, 'badcall': 0,
              'deeprec': 0, 'churn': 0, 'web': 0},
    'hostcall': 0.1,
    'user': 0.0,
    'pad': (1, 60),
    'vars': (5, 30),
    'hugepad': 0.0,
}


class Gen:
    def __init__(self, rng, **prof):
        self.r = rng
        self.p = dict(DEFAULT)
        self.p['stmts'] = dict(DEFAULT['stmts'])
        for k, v in prof.items():
            if k == 'stmts':
                self.p['stmts'].update(v)
            else:
                self.p[k] = v
        self.n = 0
        self.globals = {}   # name -> type
        self.gfuns = {}     # name -> (n, variadic)
        self.loopvars = set()

    def name(self, base):
        self.n += 1
        # mostly fresh names, sometimes reused ones, so that shadowing happens
        if self.r.random() < 0.25:
            return I(base + str(self.r.randrange(3)))
        return I(base + 'x' + str(self.n))

    def chance(self, x):
        return self.r.random() < x

    # ---- expressions ----

    def expr(self, sc, ty, d):
        r = self.r
        if self.chance(self.p['ill']):
            ty = r.choice(self.p['types'])
        if self.chance(self.p['undef'] * 0.3):
            return I('undefined-%d' % r.randrange(3))
        if ty == 'any':
            ty = r.choice(self.p['types'])
        if d <= 0:
            return self.leaf(sc, ty)
        c = [n for n, t in sc.all_vars().items() if t == ty]
        if c and self.chance(0.3):
            return I(r.choice(c))
        c = [n for n, t in self.globals.items() if t == ty]
        if c and self.chance(0.1):
            return I(r.choice(c))
        # calls of known functions
        if self.chance(0.22):
            c = [(n, f) for n, f in sc.all_funs().items() if f[2] == ty]
            c += [(n, f) for n, f in self.gfuns.items() if f[2] == ty]
            if c:
                n, f = r.choice(c)
                return self.call(sc, I(n), f, d)
        if self.chance(0.08):
            return [I('if'), self.cond(sc, d - 1), self.expr(sc, ty, d - 1), self.expr(sc, ty, d - 1)]
        if self.chance(0.03):
            return [self.lit(ty), self.expr(sc, ty, d - 1)]
        if self.chance(0.05):
            # immediately applied lambda
            n = r.randrange(0, 3)
            ps = []
            while len(ps) < n:
                x = self.name('p')
                if x not in ps:
                    ps.append(x)
            s2 = Scope(sc, fn='lambda')
            for x in ps:
                s2.vars[x] = 'int'
            body = [self.expr(s2, ty, d - 1)]
            lam = [I('lambda'), list(ps)] + body
            args = [self.expr(sc, 'int', d - 2) for _ in ps]
            if self.chance(0.3):
                return [I('apply'), lam] + ([self.listof(args)] if self.chance(0.5) or not args else args[:1] + [self.listof(args[1:])])
            return [I('funcall'), lam] + args
        if self.chance(0.03) and ty == 'int':
            return [I('emit'), self.expr(sc, ty, d - 1)]
        return getattr(self, 'g_' + ty)(sc, d - 1)

    def listof(self, args):
        return [I('list')] + args

    def leaf(self, sc, ty):
        c = [n for n, t in sc.all_vars().items() if t == ty]
        if c and self.chance(0.7):
            return I(self.r.choice(c))
        return self.lit(ty)

    def lit(self, ty):
        r = self.r
        if ty == 'int':
            return r.choice([0, 1, 2, 3, 5, 7, -1, -4, 10, 100, 127, 128, 255, 256, 1000, -128, -129, 32767, 32768, 70000])
        if ty == 'bool':
            return r.random() < 0.5
        if ty == 'flt':
            return r.choice([F(1, -1), F(3, -1), F(5, -2), F(0), F(-1, -1), F(2), F(3, -2), F(-9, -2), F(25, -2), F(1), F(3)])
        if ty == 'str':
            return S(bytes(r.choice(b'abcdeXYZ019 .-"\\\n\xc3\xa9') for _ in range(r.choice([0, 1, 1, 2, 3, 5]))))
        if ty == 'list':
            return r.choice([[], q([1, 2, 3]), q([I('a'), [I('b')]]), q([S(b'x'), True, F(1, -1)]), [I('list')]])
        if ty == 'vec':
            return r.choice([[I('vector')], [I('vector'), 1], [I('vector'), 1, 2, 3], [I('make-vector'), r.randrange(0, 5), 0]])
        if ty == 'sym':
            return q(I(r.choice(['a', 'b', 'foo', 'bar-baz', 'x1', 'car', 'if'])))
        if ty == 'clo':
            return r.choice([[I('lambda'), [I('z')], I('z')], [I('lambda'), [], 5], I('emit')])
        if ty == 'comp':
            return [I('make-instance'), [I('make-type')], r.choice([0, 5]), r.choice([[], [I('lambda'), [I('z')], I('z')]])]
        if ty == 'utype':
            return [I('make-type')]
        if ty == 'clo0':
            return [I('lambda'), [], self.lit('int')]
        if ty == 'clo1':
            return [I('lambda'), [I('z')], [I('+'), I('z'), self.lit('int')]]
        if ty == 'type':
            return [I('type-of'), self.lit(r.choice(['int', 'bool', 'str', 'list', 'vec']))]
        return 0

    def cond(self, sc, d):
        r = self.r
        x = r.random()
        if x < 0.7:
            return self.g_bool(sc, d)
        return self.expr(sc, 'any', d)

    def g_int(self, sc, d):
        r = self.r
        x = r.randrange(12)
        if x < 4:
            op = r.choice(['+', '-', '*', '+', '-', '/'])
            b = self.expr(sc, 'int', d) if op != '/' or self.chance(0.2) else r.choice([1, 2, 3, -2, 7])
            return [I(op), self.expr(sc, 'int', d), b]
        if x == 4:
            return [I('length'), self.expr(sc, r.choice(['list', 'vec', 'str']), d)]
        if x == 5:
            return [I('car'), [I('cons'), self.expr(sc, 'int', d), self.expr(sc, 'any', d)]]
        if x == 6:
            return [I('get-vector-element'), [I('vector'), self.expr(sc, 'int', d), self.expr(sc, 'int', d)], r.choice([0, 1]) if not self.chance(self.p['ill'] * 5) else 2]
        if x == 7:
            return [I('car'), [I('concatenate'), S(b'z'), self.expr(sc, 'str', d)]]
        if x == 8:
            return [I('composite-value'), [I('make-instance'), [I('make-type')], self.expr(sc, 'int', d), []]]
        if x == 9:
            return [I('not'), self.expr(sc, 'int', d)]
        return self.leaf(sc, 'int')

    def g_bool(self, sc, d):
        r = self.r
        x = r.randrange(9)
        if x < 3:
            t = r.choice(['int', 'int', 'flt'])
            return [I(r.choice(['<', '>', '='])), self.expr(sc, t, d), self.expr(sc, t, d)]
        if x == 3:
            return [I('not'), self.expr(sc, r.choice(['bool', 'list']), d)]
        if x == 4:
            return [I('null?'), self.expr(sc, 'any', d)]
        if x == 5:
            t = r.choice(['str', 'sym', 'list', 'bool', 'int'])
            return [I('='), self.expr(sc, t, d), self.expr(sc, t, d)]
        if x == 6:
            return [I('='), [I('type-of'), self.expr(sc, 'any', d)], self.lit('type')]
        return self.leaf(sc, 'bool')

    def g_flt(self, sc, d):
        r = self.r
        if self.chance(0.6):
            return [I(r.choice('+-*')), self.expr(sc, 'flt', d), self.expr(sc, r.choice(['flt', 'int', 'bool']), d)]
        return self.leaf(sc, 'flt')

    def g_str(self, sc, d):
        r = self.r
        x = r.randrange(7)
        if x < 2:
            return [I('concatenate'), self.expr(sc, r.choice(['str', 'sym']), d), self.expr(sc, r.choice(['str', 'sym']), d)]
        if x == 2:
            return [I('cdr'), self.expr(sc, 'str', d)]
        if x == 3:
            return [I('substring'), self.expr(sc, 'str', d), 0, r.choice([0, 1, 1, 2])]
        if x == 4:
            return [I('symbol-string'), self.expr(sc, 'sym', d)]
        if x == 5:
            return [I('make-string'), r.choice([[I('list')], [I('vector')]])[:1] + [r.choice([97, 98, 65, 48, 255, 10]) for _ in range(r.randrange(1, 4))]]
        return self.leaf(sc, 'str')

    def g_list(self, sc, d):
        r = self.r
        x = r.randrange(8)
        if x < 2:
            return [I('cons'), self.expr(sc, 'any', d), self.expr(sc, r.choice(['list', 'list', 'list', 'int']), d)]
        if x < 5:
            return [I('list')] + [self.expr(sc, 'any', d) for _ in range(r.randrange(0, 4))]
        if x == 5:
            return [I('cdr'), self.expr(sc, 'list', d)]
        if x == 6:
            return q(self.datum(3))
        return self.leaf(sc, 'list')

    def datum(self, d):
        r = self.r
        if d == 0 or self.chance(0.4):
            return r.choice([1, 2, True, F(1, -1), S(b'q'), I('a'), I('foo'), [], 300])
        return [self.datum(d - 1) for _ in range(r.randrange(1, 4))]

    def g_vec(self, sc, d):
        r = self.r
        x = r.randrange(6)
        if x < 3:
            return [I('vector')] + [self.expr(sc, 'any', d) for _ in range(r.randrange(0, 4))]
        if x == 3:
            return [I('make-vector'), r.randrange(0, 4), self.expr(sc, 'any', d)]
        if x == 4:
            return [I('cdr'), self.expr(sc, 'vec', d)]
        return self.leaf(sc, 'vec')

    def g_sym(self, sc, d):
        return self.leaf(sc, 'sym')

    def g_utype(self, sc, d):
        return [I('make-type')]

    def g_type(self, sc, d):
        return self.lit('type')

    def g_comp(self, sc, d):
        return [I('make-instance'), [I('make-type')], self.expr(sc, 'any', d), self.expr(sc, 'clo', d)]

    def g_clo(self, sc, d):
        r = self.r
        fs = list(sc.all_funs())
        if fs and self.chance(0.3):
            return I(r.choice(fs))
        return self.lam(sc, r.choice([0, 1, 1, 1, 2]), d)

    def lam(self, sc, n, d):
        ps = []
        while len(ps) < n:
            x = self.name('p')
            if x not in ps:
                ps.append(x)
        s2 = Scope(sc, fn='lambda')
        for x in ps:
            s2.vars[x] = 'int'
        return [I('lambda'), list(ps)] + self.body(s2, d, 'int', small=True)

    def g_clo0(self, sc, d):
        return self.lam(sc, 0, d)

    def g_clo1(self, sc, d):
        return self.lam(sc, 1, d)

    def call(self, sc, f, sig, d):
        n, va, _ = sig
        r = self.r
        k = n + (r.randrange(0, 3) if va else 0)
        if self.chance(self.p['ill']):
            k = max(0, k + r.choice([-1, 1]))
        args = [self.expr(sc, 'int', d - 1) for _ in range(k)]
        x = r.random()
        if x < 0.15:
            return [I('funcall'), f] + args
        if x < 0.25:
            i = r.randrange(0, len(args) + 1)
            return [I('apply'), f] + args[:i] + [self.listof(args[i:])]
        if x < 0.25 + self.p['hostcall'] and n == 1 and not va:
            return [I('host-call'), f, args[0] if args else 1]
        return [f] + args

    # ---- statements ----

    def body(self, sc, d, ty, small=False):
        out = []
        for _ in range(self.r.randrange(0, 2 if small else 4)):
            out += self.stmt(sc, d - 1)
        out.append(self.expr(sc, ty, max(0, d)))
        return out

    def stmt(self, sc, d):
        r = self.r
        ks = list(self.p['stmts'].items())
        k = r.choices([x[0] for x in ks], [x[1] for x in ks])[0]
        if d <= 0 and k not in ('emit', 'setq', 'var', 'mutate', 'gc'):
            k = 'emit'
        return getattr(self, 's_' + k)(sc, max(d, 1))

    def s_emit(self, sc, d):
        t = self.r.choice(self.p['types'])
        return [[I('emit'), self.expr(sc, t, d)]]

    def s_gc(self, sc, d):
        return [[I('host-gc')]]

    def s_var(self, sc, d):
        t = self.r.choice(self.p['types'])
        n = self.name('v')
        e = self.expr(sc, t, d)
        sc.vars[n] = t
        return [[I('var'), n, e]]

    def s_setq(self, sc, d):
        c = [(n, t) for n, t in sc.all_vars().items() if n not in self.loopvars]
        if not c:
            return self.s_var(sc, d)
        n, t = self.r.choice(c)
        return [[I('setq'), I(n), self.expr(sc, t, d)]]

    def s_defun(self, sc, d):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3])
        va = self.chance(0.25) and n >= 1
        f = self.name('f')
        ps = [self.name('p') for _ in range(n)]
        if len(set(ps)) != len(ps):
            ps = [I('p%da' % i) for i in range(n)]
        s2 = Scope(sc, fn=f)
        for x in ps:
            s2.vars[x] = 'int'
        plist = list(ps)
        if va:
            rest = self.name('r')
            if rest not in ps:
                plist += [I('&rest'), rest]
                s2.vars[rest] = 'list'
            else:
                va = False
        ty = r.choice(['int', 'int', 'list', 'bool', 'clo', 'str'])
        b = self.body(s2, d, ty)
        sc.funs[f] = (n, va, ty)
        sc.vars[f] = 'clo'
        return [[I('defun'), f, plist] + b]

    def s_shadow(self, sc, d):
        """Redefine a keyword as a function."""
        r = self.r
        k = r.choice(['not', 'car', 'null?', 'length'])
        return [[I('defun'), I(k), [I('a')], [I('emit'), r.choice([[I('__' + k), I('a')], 7])], I('a')]]

    def s_global(self, sc, d):
        r = self.r
        if self.chance(0.4):
            n = r.choice([0, 1, 2])
            g = I('g%d' % r.randrange(6))
            ps = [I('p%d' % i) for i in range(n)]
            s2 = Scope(sc, fn='lambda')
            for x in ps:
                s2.vars[x] = 'int'
            b = self.body(s2, d, 'int')
            self.gfuns[g] = (n, False, 'int')
            self.globals.pop(g, None)
            return [[I('global'), g, [I('lambda'), ps] + b]]
        t = r.choice(self.p['types'])
        g = I('h%d' % r.randrange(6))
        e = self.expr(sc, t, d)
        self.globals[g] = t
        return [[I('global'), g, e]]

    def s_setglobal(self, sc, d):
        if not self.globals:
            return self.s_global(sc, d)
        g = self.r.choice(list(self.globals))
        return [[I('setq'), I(g), self.expr(sc, self.globals[g], d)]]

    def block(self, sc, d, n=None):
        s2 = Scope(sc)
        out = []
        for _ in range(n or self.r.randrange(1, 3)):
            out += self.stmt(s2, d - 1)
        return out

    def s_if(self, sc, d):
        return [[I('emit'), [I('if'), self.cond(sc, d - 1), [[]] + self.block(sc, d), [[]] + self.block(sc, d)]]] \
            if self.chance(0.5) else [[I('if'), self.cond(sc, d - 1), [[]] + self.block(sc, d), self.expr(sc, 'any', d - 1)]]

    def s_when(self, sc, d):
        return [[I('when'), self.cond(sc, d - 1)] + self.block(sc, d)]

    def s_unless(self, sc, d):
        return [[I('unless'), self.cond(sc, d - 1)] + self.block(sc, d)]

    def s_scope(self, sc, d):
        return [[[]] + self.block(sc, d, 2)]

    def s_noscope(self, sc, d):
        out = []
        for _ in range(self.r.randrange(1, 3)):
            out += self.stmt(sc, d - 1)
        return [[I('noscope')] + out]

    def s_while(self, sc, d):
        i = I('i%d' % self.n)
        self.n += 1
        self.loopvars.add(i)
        sc.vars[i] = 'int'
        k = self.r.randrange(1, 5)
        step = [I('setq'), i, [I('+'), i, 1]]
        b = self.block(sc, d)
        b = [step] + b if self.chance(0.5) else b + [step]
        if self.chance(0.2):
            return [[I('var'), i, k], [I('while'), i, [I('setq'), i, [I('-'), i, 1]]] + self.block(sc, d)]
        return [[I('var'), i, 0], [I('while'), [I('<'), i, k]] + b]

    def s_mutate(self, sc, d):
        r = self.r
        c = [n for n, t in sc.all_vars().items() if t in ('list', 'vec', 'comp')]
        if not c:
            return self.s_var(sc, d)
        n = r.choice(c)
        t = sc.all_vars()[n]
        if t == 'list':
            if self.chance(0.6):
                return [[I('when'), I(n), [I('set-car'), I(n), self.expr(sc, 'any', d)]], [I('emit'), I(n)]]
            return [[I('when'), I(n), [I('set-cdr'), I(n), self.expr(sc, 'list', d)]], [I('emit'), I(n)]]
        if t == 'vec':
            return [[I('when'), I(n), r.choice([[I('set-vector-element'), I(n), 0, self.expr(sc, 'any', d)],
                                                [I('set-car'), I(n), self.expr(sc, 'any', d)],
                                                [I('set-vector-element'), I(n), r.randrange(0, 3), self.expr(sc, 'int', d)]])],
                    [I('emit'), I(n)]]
        return [[I(r.choice(['set-composite-value', 'set-composite-function'])), I(n), self.expr(sc, 'any', d)],
                [I('emit'), I(n)]]

    # closures sharing a variable
    def s_counter(self, sc, d):
        r = self.r
        v, g, s = self.name('c'), self.name('get'), self.name('set')
        sc.vars[v] = 'int'
        sc.vars[g] = 'clo0'
        sc.vars[s] = 'clo1'
        out = [[I('var'), v, self.expr(sc, 'int', 1)],
               [I('var'), g, [I('lambda'), [], v]],
               [I('var'), s, [I('lambda'), [I('n')], [I('setq'), v, [I('+'), v, I('n')]]]]]
        for _ in range(r.randrange(1, 4)):
            out.append(r.choice([[I('emit'), [I('funcall'), g]], [I('emit'), [I('funcall'), s, r.randrange(1, 9)]],
                                 [I('setq'), v, self.expr(sc, 'int', 1)], [I('emit'), v]]))
        return out

    # a loop making one closure per iteration
    def s_loopclo(self, sc, d):
        i = I('i%d' % self.n)
        fs = I('fs%d' % self.n)
        w = I('w%d' % self.n)
        self.n += 1
        self.loopvars.add(i)
        sc.vars[i] = 'int'
        out = [[I('var'), i, 0], [I('var'), fs, []],
               [I('while'), [I('<'), i, self.r.randrange(1, 4)],
                [I('var'), w, [I('*'), i, 10]],
                [I('setq'), fs, [I('cons'), [I('lambda'), [I('n')], [I('setq'), w, [I('+'), w, I('n')]]], fs]]]
               + self.block(sc, d, 1) + [[I('setq'), i, [I('+'), i, 1]]],
               [I('while'), fs, [I('emit'), [I('funcall'), [I('car'), fs], 1]], [I('emit'), [I('funcall'), [I('car'), fs], i]],
                [I('setq'), fs, [I('cdr'), fs]]]]
        return out

    def s_rec(self, sc, d):
        r = self.r
        f = self.name('rec')
        n = I('n')
        self.loopvars.add(n)
        s2 = Scope(sc, fn=f)
        s2.vars[n] = 'int'
        kind = r.randrange(4)
        if kind == 0:
            body = [[I('if'), [I('<'), n, 1], self.expr(s2, 'int', 1), [I('+'), n, [I('self'), [I('-'), n, 1]]]]]
        elif kind == 1:
            body = [[I('if'), [I('<'), n, 1], [], [I('cons'), self.expr(s2, 'int', 1), [I('self'), [I('-'), n, 1]]]]]
        elif kind == 2:
            body = [[I('if'), [I('<'), n, 1], [], [I('cons'), [I('lambda'), [], [I('setq'), n, [I('+'), n, 1]]], [I('self'), [I('-'), n, 1]]]]]
        else:
            body = [[I('when'), [I('>'), n, 0], [I('var'), I('t'), [I('self'), [I('-'), n, 1]]], [I('emit'), n],
                     [I('vector'), n, I('t')]]]
        sc.funs[f] = (1, False, 'any')
        sc.vars[f] = 'clo1'
        return [[I('defun'), f, [n]] + self.block(s2, 1, 1) + body, [I('emit'), [f, r.randrange(0, 4)]]]

    def s_mutual(self, sc, d):
        a, b = self.name('ma'), self.name('mb')
        return [[I('var'), a, []],
                [I('defun'), b, [I('n')], [I('if'), [I('<'), I('n'), 1], True, [I('funcall'), a, [I('-'), I('n'), 1]]]],
                [I('setq'), a, [I('lambda'), [I('n')], [I('if'), [I('<'), I('n'), 1], False, [b, [I('-'), I('n'), 1]]]]],
                [I('emit'), [b, self.r.randrange(0, 6)]]]

    def chunk(self, n=None):
        sc = Scope()
        out = [[]]
        lo, hi = self.p['forms']
        for _ in range(n or self.r.randrange(lo, hi)):
            out += self.stmt(sc, self.p['depth'])
        out.append(self.expr(sc, self.r.choice(self.p['types']), 2))
        return out

    # ---- focused statements ----

    FAILS = [lambda s, c: [I('car'), 5], lambda s, c: [I('+'), 1, S(b'x')], lambda s, c: [I('host-fail')],
             lambda s, c: [I('nosuch'), 1], lambda s, c: I('nosuch'), lambda s, c: [I('/'), 1, 0],
             lambda s, c: [I('get-vector-element'), [I('vector'), 1], 1], lambda s, c: [I('funcall'), 3],
             lambda s, c: [[I('lambda'), [I('a')], I('a')]] and [I('funcall'), [I('lambda'), [I('a')], I('a')]],
             lambda s, c: [I('apply'), [I('lambda'), [], 1], [I('list'), 1]],
             lambda s, c: [I('set-car'), [], 1], lambda s, c: [I('composite-value'), 1],
             lambda s, c: [I('make-instance'), 1, 2, 3], lambda s, c: [I('length'), 4],
             lambda s, c: [I('host-call'), [I('lambda'), [I('a')], [I('car'), I('a')]], 7],
             lambda s, c: [I('host-call'), [I('lambda'), [], 0], 7],
             lambda s, c: [I('substring'), S(b'abc'), 1, 9], lambda s, c: [I('symbol-string'), 1]]

    def failing(self, sc):
        """An expression that fails at run time, in some position of some form."""
        r = self.r
        e = r.choice(self.FAILS)(self, sc)
        for _ in range(r.randrange(0, 4)):
            x = r.randrange(10)
            if x == 0:
                e = [I('+'), self.expr(sc, 'int', 1), e]
            elif x == 1:
                e = [I('list'), self.expr(sc, 'any', 1), e, [I('emit'), 1]]
            elif x == 2:
                e = [I('emit'), e]
            elif x == 3:
                e = [I('funcall'), [I('lambda'), [I('q')], [I('emit'), I('q')], e], self.expr(sc, 'int', 1)]
            elif x == 4:
                e = [I('if'), self.cond(sc, 1), e, self.expr(sc, 'int', 1)]
            elif x == 5:
                e = [[]] + self.block(sc, 2) + [[I('var'), I('w'), 4], [I('setq'), I('w'), e], I('w')]
            elif x == 6:
                e = [I('host-call'), [I('lambda'), [I('q')], [I('emit'), I('q')], e], self.expr(sc, 'int', 1)]
            elif x == 7:
                e = [[]] + [[I('var'), I('w'), 0], [I('while'), [I('<'), I('w'), 3], [I('var'), I('u'), I('w')],
                                                 [I('emit'), [I('lambda'), [], I('u')]],
                                                 [I('setq'), I('w'), [I('+'), I('w'), 1]], [I('when'), [I('='), I('w'), 2], e]]]
            elif x == 8:
                e = [I('vector'), 1, e, [I('lambda'), [], 1]]
            else:
                e = [I('apply'), I('host-call'), [I('list'), [I('lambda'), [I('q')], e], 3]]
        return e

    def s_fail(self, sc, d):
        return [self.failing(sc)]

    def s_capglobal(self, sc, d):
        """Globals whose functions share a local variable; later chunks use them."""
        r = self.r
        v = self.name('k')
        sc.vars[v] = 'int'
        g, h = I('cg%d' % r.randrange(3)), I('ch%d' % r.randrange(3))
        self.gfuns[g] = (0, False, 'int')
        self.gfuns[h] = (1, False, 'int')
        out = [[I('var'), v, self.expr(sc, 'int', 1)]]
        if self.chance(0.5):
            out += [[I('global'), g, [I('lambda'), [], v]],
                    [I('global'), h, [I('lambda'), [I('n')], [I('setq'), v, [I('+'), v, I('n')]]]]]
        else:
            f = self.name('mk')
            out += [[I('defun'), f, [I('a')], [I('var'), I('b'), [I('+'), I('a'), v]],
                     [I('global'), g, [I('lambda'), [], [I('setq'), I('b'), [I('+'), I('b'), 1]]]],
                     [I('global'), h, [I('lambda'), [I('n')], [I('setq'), v, [I('+'), v, I('n')]],
                                       [I('setq'), I('b'), [I('+'), I('b'), v]]]]],
                    [f, self.expr(sc, 'int', 1)]]
        if self.chance(0.6):
            out.append([I('setq'), v, self.expr(sc, 'int', 1)])
        if self.chance(0.5):
            out += [[I('emit'), [g]], [I('emit'), [h, 3]], [I('emit'), v]]
        return out

    def s_useglobal(self, sc, d):
        r = self.r
        if not self.gfuns and not self.globals:
            return self.s_capglobal(sc, d)
        x = r.choice(list(self.gfuns) + list(self.globals))
        if x in self.gfuns:
            n = self.gfuns[x][0]
            return [[I('emit'), [x] + [self.expr(sc, 'int', 1) for _ in range(n)]]]
        return [[I('emit'), x]]

    def s_pad(self, sc, d):
        """Code of a chosen size inside a branch, a loop, a body or a function, so that jumps span it."""
        r = self.r
        lo, hi = self.p['pad']
        k = r.randrange(lo, hi)
        v = self.name('v')
        sc.vars[v] = 'int'
        unit = [lambda: [I('setq'), v, [I('+'), v, 1]], lambda: v, lambda: 1, lambda: [I('list'), v, v], lambda: [],
                lambda: [I('if'), v, 1, 2], lambda: [I('cons'), 300, v]]
        u = r.choice(unit)
        pad = [u() for _ in range(k)] if self.chance(0.6) else [r.choice(unit)() for _ in range(k)]
        x = r.randrange(7)
        e = self.expr(sc, 'int', 1)
        out = [[I('var'), v, r.choice([0, 1])]]
        if x == 0:
            out.append([I('emit'), [I('if'), self.cond(sc, 1), [[]] + pad + [e], self.expr(sc, 'any', 1)]])
        elif x == 1:
            out.append([I('emit'), [I('if'), self.cond(sc, 1), self.expr(sc, 'any', 1), [[]] + pad + [v]]])
        elif x == 2:
            i = I('i%d' % self.n)
            self.n += 1
            out += [[I('var'), i, 0], [I('while'), [I('<'), i, r.randrange(0, 3)], [I('setq'), i, [I('+'), i, 1]]] + pad, [I('emit'), v]]
        elif x == 3:
            f = self.name('pf')
            out += [[I('defun'), f, [I('a')]] + pad + [[I('emit'), I('a')], v], [I('emit'), [f, 3]]]
        elif x == 4:
            out.append([I(r.choice(['when', 'unless'])), self.cond(sc, 1)] + pad + [[I('emit'), v]])
        elif x == 5:
            out += [[I('emit'), [I('funcall'), [I('lambda'), []] + pad + [v]]]]
        else:
            out.append([I('emit'), [I('if'), self.cond(sc, 1), [[]] + pad + [[I('if'), self.cond(sc, 1), [[]] + pad[:k // 2] + [v], 7]],
                                    [[]] + pad[:r.randrange(1, k + 1)] + [9]]])
        out.append([I('emit'), v])
        return out

    def s_manyvars(self, sc, d):
        r = self.r
        lo, hi = self.p['vars']
        k = r.randrange(lo, hi)
        base = 'mv%d-' % self.n
        self.n += 1
        out = []
        ids = [I(base + str(i)) for i in range(k)]
        for i, n in enumerate(ids):
            out.append([I('var'), n, i if self.chance(0.9) or i == 0 else ids[r.randrange(i)]])
        for n in r.sample(ids, min(k, 4)):
            sc.vars[n] = 'int'
            out.append(r.choice([[I('setq'), n, [I('+'), n, 1]], [I('emit'), n],
                                 [I('emit'), [I('funcall'), [I('lambda'), [I('a')], [I('setq'), n, [I('+'), n, I('a')]]], 2]]]))
        a, b = r.choice(ids), r.choice(ids)
        out.append([I('emit'), [I('list'), a, [I('-'), b, a], [I('<'), a, b], [I('vector'), b, a], [I('cons'), a, b], [I('not'), b]]])
        return out

    def s_wideops(self, sc, d):
        """Every operator with operands near and beyond the reach of one-byte stack indices."""
        r = self.r
        base = 'wo%d-' % self.n
        self.n += 1
        nm = lambda x: I(base + x)
        C = lambda *a: [I(a[0])] + list(a[1:])
        init = [('i', r.choice([0, 1, 2])), ('j', r.choice([3, 4, 300])), ('l', C('list', 1, 2)), ('v', C('vector', 7, 8, 9)),
                ('s', S(b'abcdef')), ('u', S(b'bc')), ('y', q(I('sy'))), ('z', q(I('zz'))), ('t', C('make-type')),
                ('f', C('lambda', [I('a'), I('b')], C('list', I('a'), I('b')))), ('x', F(5, -1)), ('b', True), ('n', [])]
        init.append(('c', C('make-instance', nm('t'), 5, nm('f'))))
        r.shuffle(init)
        init.sort(key=lambda p: p[0] == 'c')
        out = [[I('var'), nm(k), e] for k, e in init]
        k = r.choice([r.randrange(1, 8), 300] + [r.randrange(225, 262) for _ in range(3)])
        shallow = dict((n, nm(n)) for n, _ in init)
        out.append(sexp.Pad(r.randrange(65505, 65545) if self.chance(self.p['hugepad']) else k, base + 'p'))
        if self.chance(0.5):
            for n, _ in init:
                if self.chance(0.4):
                    shallow[n] = nm('q' + n)
                    out.append([I('var'), shallow[n], nm(n)])
        def g(n):
            return nm(n) if self.chance(0.7) else shallow[n]
        def i2():
            return g('i') if self.chance(0.7) else r.choice([0, 1, 2])
        def any_():
            return g(r.choice('ijlvsuyztfxbnc'))
        ops = [lambda: C(r.choice(['+', '-', '*', '<', '>', '=']), g(r.choice('ijxb')), g(r.choice('ijxb'))),
               lambda: C('/', g('j'), r.choice([g('j'), 2])), lambda: C('=', any_(), any_()), lambda: C('not', any_()),
               lambda: C('cons', any_(), any_()), lambda: C('car', g(r.choice('lvs'))), lambda: C('cdr', g(r.choice('lvs'))),
               lambda: C('null?', any_()), lambda: C('type-of', any_()), lambda: C('length', g(r.choice('lvs'))),
               lambda: C('set-car', g(r.choice('lv')), any_()), lambda: C('set-cdr', g('l'), g(r.choice('ln'))),
               lambda: C('get-vector-element', g('v'), i2()), lambda: C('set-vector-element', g('v'), i2(), any_()),
               lambda: C('make-vector', i2(), any_()), lambda: C('list', any_(), any_(), any_()), lambda: C('vector', any_(), any_()),
               lambda: C('make-instance', g('t'), any_(), any_()), lambda: C('composite-value', g('c')), lambda: C('composite-function', g('c')),
               lambda: C('set-composite-value', g('c'), any_()), lambda: C('set-composite-function', g('c'), g('f')),
               lambda: C('concatenate', g(r.choice('su')), g(r.choice('su'))), lambda: C('substring', g('s'), i2(), g('j')),
               lambda: C('symbol-string', g(r.choice('yz'))), lambda: C('make-string', C('list', 65, 66)), lambda: C('make-type'),
               lambda: C('funcall', g('f'), any_(), any_()), lambda: C('apply', g('f'), any_(), C('list', any_())),
               lambda: C('funcall', g('c'), any_(), any_()), lambda: [shallow['f'] if shallow['f'] != nm('f') else nm('f'), any_(), any_()],
               lambda: C('if', g('b'), any_(), any_()), lambda: C('setq', nm(r.choice('ij')), C('+', g('i'), 1)),
               lambda: C('while', C('<', g('j'), r.choice([4, 5])), C('setq', nm('j'), C('+', nm('j'), 1))),
               lambda: C('funcall', C('lambda', [I('a')], C('list', I('a'), g('i'), g('s'))), any_()),
               lambda: C('funcall', C('lambda', [], C('setq', nm('i'), C('+', nm('i'), 1))))]
        # operators read local operands where they stand, so nothing that changes a variable is used as an operand here
        for _ in range(r.randrange(4, 12)):
            out.append([I('emit'), r.choice(ops)()])
        return [[[]] + out]

    def s_callback(self, sc, d):
        """Host functions calling back, nested, with closures and collections inside."""
        r = self.r
        v, f = self.name('v'), self.name('cb')
        sc.vars[v] = 'int'
        n = I('n')
        s2 = Scope(sc, fn=f)
        s2.vars[n] = 'int'
        inner = r.choice([
            [[I('host-gc')], [I('list'), n, v]],
            [[I('setq'), v, [I('+'), v, n]], [I('host-call'), [I('lambda'), [I('m')], [I('cons'), I('m'), n]], v]],
            [[I('if'), [I('<'), n, 1], [I('host-gc')], [I('cons'), n, [I('host-call'), I('self'), [I('-'), n, 1]]]]],
            [[I('if'), [I('<'), n, 1], v, [I('+'), 1, [I('host-call'), I('self'), [I('-'), n, 1]]]]],
            [[I('host-gc')], [I('host-args'), n, [I('host-call'), I('emit'), v], [I('lambda'), [], n]]],
            self.block(s2, 2) + [[I('lambda'), [I('m')], [I('setq'), v, [I('+'), [I('+'), n, I('m')], v]]]]])
        out = [[I('var'), v, self.expr(sc, 'int', 1)], [I('defun'), f, [n]] + inner]
        for _ in range(r.randrange(1, 3)):
            x = r.randrange(6)
            c = [I('host-call'), f, self.r.randrange(0, 4)]
            if x == 0:
                out.append([I('emit'), c])
            elif x == 1:
                out.append([I('emit'), [I('list'), v, c, [I('host-gc')], v]])
            elif x == 2:
                w = self.name('w')
                sc.vars[w] = 'any'
                out += [[I('var'), w, c], [I('host-gc')], [I('emit'), w],
                        [I('when'), [I('='), [I('type-of'), w], [I('type-of'), [I('lambda'), [], 1]]], [I('emit'), [I('host-call'), w, 5]]]]
            elif x == 3:
                out.append([I('emit'), [I('apply'), I('host-call'), [I('list'), f, 2]]])
            elif x == 4:
                out.append([I('emit'), [I('funcall'), I('host-call'), f, 1]] if self.chance(0.05) else
                           [I('emit'), [I('funcall'), I('host-call'), f, 2]])
            else:
                out.append([I('emit'), [I('host-call'), [I('lambda'), [I('q')], [f, I('q')], [I('host-gc')], [I('+'), v, I('q')]], 1]])
            out.append([I('emit'), v])
        return out

    def s_varcall(self, sc, d):
        """Functions of every arity called every way."""
        r = self.r
        n = r.randrange(0, 6)
        va = n >= 1 and self.chance(0.5)
        ps = [I('p%d' % i) for i in range(n)]
        plist = list(ps) + ([I('&rest'), I('rs')] if va else [])
        f = self.name('f')
        body = r.choice([[[I('list')] + ps + ([I('rs')] if va else [])],
                         [[I('emit'), [I('vector')] + ps]] + ([[I('emit'), I('rs')]] if va else []) + [1],
                         [[I('setq'), ps[-1], [I('cons'), ps[0], ps[-1]]], [I('lambda'), [], [I('list')] + ps]] if n else [[I('lambda'), [], 4]]])
        k = n + (r.choice([0, 0, 1, 2, 5, 9]) if va else 0)
        if self.chance(0.12):
            k = max(0, k + r.choice([-1, 1, 2, -2]))
        args = [self.expr(sc, 'any', 1) for _ in range(k)]
        how = r.randrange(7)
        if how == 0:
            fn, pre = f, [[I('defun'), f, plist] + body]
            sc.funs[f] = (n, va, 'any')
        elif how == 1:
            g = I('vg%d' % r.randrange(4))
            fn, pre = g, [[I('global'), g, [I('lambda'), plist] + body]]
            self.gfuns.pop(g, None)
        elif how == 2:
            fn, pre = None, []
            lam = [I('lambda'), plist] + body
        else:
            fn, pre = f, [[I('var'), f, [I('lambda'), plist] + body]]
            sc.vars[f] = 'clo'
        target = fn if fn is not None else lam
        x = r.randrange(4)
        if x == 0 and how in (0, 1):
            call = [target] + args
        elif x == 1 or (x == 0):
            call = [I('funcall'), target] + args
        elif x == 2:
            i = r.randrange(0, len(args) + 1)
            call = [I('apply'), target] + args[:i] + [[I('list')] + args[i:]]
        else:
            call = [I('funcall'), [I('make-instance'), [I('make-type')], 0, target]] + args
        if k == 1 and self.chance(0.4):
            call = [I('host-call'), target, args[0]]
        out = pre + [[I('emit'), call]]
        if self.chance(0.3):
            out.append([I('emit'), [I('funcall'), [I('lambda'), [I('z')], [I('if'), [I('='), [I('type-of'), I('z')], [I('type-of'), [I('lambda'), [], 1]]], [I('funcall'), I('z')], I('z')]], call]])
        return out

    def s_badcall(self, sc, d):
        """A call with the wrong number of arguments; nothing of the callee may run."""
        r = self.r
        if self.chance(0.12):
            v = r.choice([5, True, [], [I('lambda'), [I('a'), I('b'), I('c')], [I('emit'), I('b')]], I('host-args'), I('host-args'), S(b'x'),
                          [I('make-instance'), [I('make-type')], 0, I('host-args')]])
            h = r.choice(['host-args', 'host-gc', 'host-user'])
            return [[I(r.choice(['global', 'setq'])), I(h), v],
                    [I('emit'), [I(h)] + [self.expr(sc, 'any', 1) for _ in range({'host-args': 3, 'host-gc': 0, 'host-user': 1}[h] if v != I('host-args') else 3)]]]
        n = r.randrange(0, 4)
        va = n >= 1 and self.chance(0.4)
        ps = [I('p%d' % i) for i in range(n)]
        plist = list(ps) + ([I('&rest'), I('rs')] if va else [])
        lam = [I('lambda'), plist, [I('emit'), 99], 1]
        k = n - 1 if va else r.choice([x for x in range(0, 6) if x != n])
        args = [self.expr(sc, 'any', 1) for _ in range(k)]
        f = self.name('f')
        pre = [[I('var'), f, lam]] if self.chance(0.5) else [[I('defun'), f, plist, [I('emit'), 98], 2]]
        x = r.randrange(4)
        if x == 0 and pre[0][0] == I('defun'):
            return pre + [[I('emit'), [f] + args]]
        if x == 1:
            i = r.randrange(0, len(args) + 1)
            return pre + [[I('emit'), [I('apply'), f] + args[:i] + [[I('list')] + args[i:]]]]
        if x == 2 and n != 1 or (x == 2 and va and k == 0):
            return pre + [[I('emit'), [I('host-call'), f, 1]]] if n != 1 else pre + [[I('emit'), [I('funcall'), f] + args]]
        return pre + [[I('emit'), [I('funcall'), f] + args]]

    def s_alias(self, sc, d):
        """Two names for (parts of) one sequence, updates through one, reads through the other."""
        r = self.r
        a, b = self.name('a'), self.name('b')
        out = []
        if self.chance(0.5):
            k = r.randrange(1, 5)
            sc.vars[a] = 'list'
            out.append([I('var'), a, [I('list')] + [self.expr(sc, 'any', 1) for _ in range(k)]])
            e = a
            depth = r.randrange(0, k)
            for _ in range(depth):
                e = [I('cdr'), e]
            sc.vars[b] = 'list'
            out.append([I('var'), b, e])
            for _ in range(r.randrange(1, 4)):
                t = r.choice([a, b])
                x = r.randrange(6)
                if x < 2:
                    out.append([I('set-car'), t, self.expr(sc, 'any', 1)])
                elif x == 2:
                    out.append([I('set-cdr'), t, r.choice([[], [I('list'), 7, 8], q([1, 2]), [I('cons'), 9, []], 5])])
                elif x == 3:
                    out.append([I('setq'), t, [I('cons'), self.expr(sc, 'int', 1), t]])
                elif x == 4:
                    out.append([I('emit'), [I('=') , a, b]])
                else:
                    out.append([I('emit'), [I('length'), t]])
            out += [[I('emit'), a], [I('emit'), b]]
        else:
            k = r.randrange(0, 5)
            sc.vars[a] = 'vec'
            sc.vars[b] = 'vec'
            out.append([I('var'), a, [I('vector')] + [self.expr(sc, 'any', 1) for _ in range(k)] if self.chance(0.7)
                        else [I('make-vector'), k, self.expr(sc, 'any', 1)]])
            e = a
            depth = r.randrange(0, k + 2)
            for _ in range(depth):
                e = [I('cdr'), e]
            out.append([I('var'), b, e])
            for _ in range(r.randrange(1, 5)):
                t, m = r.choice([(a, k), (b, max(0, k - depth))])
                ix = r.randrange(0, m) if m and self.chance(0.85) else r.choice([m, m + 1, -1, 0, 128, 300])
                x = r.randrange(7)
                if x < 2:
                    out.append([I('emit'), [I('set-vector-element'), t, ix, self.expr(sc, 'any', 1)]])
                elif x < 4:
                    out.append([I('emit'), [I('get-vector-element'), t, ix]])
                elif x == 4:
                    out.append([I('when'), t, [I('set-car'), t, self.expr(sc, 'any', 1)]])
                elif x == 5:
                    out.append([I('emit'), [I('list'), [I('length'), t], [I('null?'), t], [I('car'), t], [I('cdr'), t]]])
                else:
                    out.append([I('emit'), [I('if'), t, [I('='), a, b], 0]])
            out += [[I('emit'), a], [I('emit'), b]]
        return out

    def s_strings(self, sc, d):
        r = self.r
        a, b = self.name('s'), self.name('s')
        sc.vars[a] = 'str'
        out = [[I('var'), a, self.expr(sc, 'str', 2)]]
        e = r.choice([[I('cdr'), a], [I('concatenate'), a, self.expr(sc, 'str', 1)], [I('concatenate'), self.expr(sc, 'sym', 1), a],
                      [I('cdr'), [I('concatenate'), a, S(b'tail')]], [I('cdr'), [I('cdr'), [I('concatenate'), S(b'ab'), a]]]])
        sc.vars[b] = 'str'
        out.append([I('var'), b, e])
        for _ in range(r.randrange(1, 4)):
            t = r.choice([a, b])
            lo, hi = r.randrange(0, 3), r.randrange(0, 5)
            out.append([I('emit'), r.choice([[I('length'), t], [I('car'), t], [I('='), a, b], [I('concatenate'), t, t], [I('null?'), t],
                                             [I('='), [I('concatenate'), S(b''), t], t], [I('substring'), [I('concatenate'), t, S(b'xyz')], min(lo, hi), max(lo, hi)],
                                             [I('type-of'), [I('cdr'), t]]])])
        out += [[I('emit'), a], [I('emit'), b]]
        return out

    def s_composite(self, sc, d):
        r = self.r
        t, u, c = self.name('t'), self.name('t'), self.name('o')
        sc.vars[t] = 'utype'
        sc.vars[c] = 'comp'
        o2 = self.name('o')
        sc.vars[o2] = 'comp'
        out = [[I('var'), t, [I('make-type')]],
               [I('var'), c, [I('make-instance'), t, self.expr(sc, 'any', 1), r.choice([[I('lambda'), [I('z')], [I('cons'), I('z'), t]], I('emit'), [], self.expr(sc, 'clo', 1)])]],
               [I('var'), o2, r.choice([c, [I('make-instance'), t, c, c], [I('make-instance'), [I('make-type')], self.expr(sc, 'any', 1), [I('lambda'), [I('a'), I('&rest'), I('b')], [I('list'), I('a'), I('b')]]],
                                        [I('make-instance'), [I('type-of'), c], 1, [I('lambda'), [I('a')], [I('composite-value'), c]]]])]]
        for _ in range(r.randrange(2, 6)):
            x = r.randrange(11)
            y = r.choice([c, o2])
            if x == 0:
                out.append([I('set-composite-value'), y, self.expr(sc, 'any', 1)])
            elif x == 1:
                out.append([I('set-composite-function'), y, r.choice([I('emit'), [I('lambda'), [I('z')], [I('set-composite-value'), y, I('z')]], [I('lambda'), [I('z')], [I('list'), I('z')]]])])
            elif x == 2:
                out.append([I('emit'), [I('composite-value'), y]])
            elif x == 3:
                out.append([I('emit'), [I('='), [I('type-of'), y], r.choice([t, [I('type-of'), c], [I('make-type')], [I('type-of'), 1]])]])
            elif x == 4 and self.chance(0.6):
                out.append([I('emit'), [I('funcall'), y, self.expr(sc, 'int', 1)]])
            elif x == 5:
                out.append([I('emit'), [I('list'), y, [I('type-of'), [I('composite-function'), y]], [I('type-of'), t]]])
            elif x == 6:
                out.append([I('emit'), [I('='), t, [I('make-type')]]])
            elif x == 7:
                out.append([I('emit'), [I('host-call'), [I('lambda'), [I('m')], [I('set-composite-value'), I('m'), 77], [I('type-of'), I('m')]], y]])
            elif x == 8:
                z = r.choice([1, True, F(1, -1), S(b'x'), [], q([1]), q(I('a')), I('emit'), [I('vector'), 1], [I('vector')], [I('make-type')], [I('lambda'), [], 1], [I('host-user'), 3], y])
                out.append([I('emit'), [I('list'), [I('type-of'), z], [I('='), [I('type-of'), z], [I('type-of'), self.expr(sc, 'any', 1)]]]])
            elif x == 9:
                out.append([I('setq'), y, r.choice([c, [I('make-instance'), t, y, [I('composite-function'), y]]])])
            else:
                out.append([I('emit'), [I('apply'), y, [I('list'), self.expr(sc, 'int', 1)]]] if self.chance(0.5) else [I('emit'), y])
        return out

    def s_nestclo(self, sc, d):
        """Closures over closures at several function depths, some created after others escaped."""
        r = self.r
        f, v, w, x = self.name('nf'), self.name('v'), self.name('w'), self.name('x')
        inc = lambda y, n: [I('setq'), y, [I('+'), y, n]]
        depth2 = [I('lambda'), [I('n')], inc(w, I('n')), inc(v, w), [I('list'), v, w, I('n')]]
        depth3 = [I('lambda'), [I('n')], [I('funcall'), [I('lambda'), [I('m')], inc(v, I('m')), inc(I('n'), v), [I('lambda'), [], inc(I('n'), w)]], 1]]
        sc.vars[v] = 'int'
        out = [[I('var'), v, r.randrange(5)],
               [I('defun'), f, [I('a')], [I('var'), w, [I('+'), I('a'), v]], [I('var'), x, r.choice([depth2, depth3])]]
               + ([[I('setq'), w, 50]] if self.chance(0.5) else []) + ([[I('emit'), [I('funcall'), x, 1]]] if self.chance(0.5) else [])
               + [r.choice([x, [I('cons'), x, [I('lambda'), [I('n')], inc(w, I('n'))]], [I('vector'), depth2, depth3, x]])]]
        res = self.name('res')
        out += [[I('var'), res, [f, r.randrange(4)]]]
        app = lambda g, n: [I('emit'), [[]] + [[I('var'), I('rr'), [I('funcall'), g, n]], [I('if'), [I('='), [I('type-of'), I('rr')], [I('type-of'), [I('lambda'), [], 1]]], [I('funcall'), I('rr')], I('rr')]]]
        body = out[1]
        last = body[-1]
        if last is x:
            gs = [res]
        elif last[0] == I('cons'):
            gs = [[I('car'), res], [I('cdr'), res]]
        else:
            gs = [[I('get-vector-element'), res, i] for i in range(3)]
        for _ in range(r.randrange(2, 5)):
            out.append(r.choice([app(r.choice(gs), r.randrange(5)), [I('emit'), v], inc(v, 1), [I('host-gc')], [f, 1]]))
        return out

    def s_web(self, sc, d):
        """Many closures over overlapping sets of variables of several scopes, called while the scopes live and after."""
        r = self.r
        u = self.n
        self.n += 1
        mk = I('mk%d' % u)
        cnt = [0]

        def fresh(b):
            cnt[0] += 1
            return I('%s%d-%d' % (b, u, cnt[0]))

        def use(vs):
            # statements touching a random sequence of variables in a random order
            out = []
            for _ in range(r.randrange(1, 5)):
                a, b = r.choice(vs), r.choice(vs)
                out.append(r.choice([[I('setq'), a, [I('+'), a, r.randrange(1, 5)]], [I('setq'), a, [I('+'), b, r.randrange(3)]],
                                     [I('setq'), a, [I('-'), I('n'), b]]]))
            return out

        def clo(vs):
            k = r.sample(vs, min(len(vs), r.randrange(1, 6)))
            body = use(k) if self.chance(0.7) else []
            e = r.choice([k[-1], [I('list')] + k, [I('+'), k[0], [I('+'), k[-1], I('n')]]])
            if self.chance(0.2):
                x = fresh('x')
                body = [[I('var'), x, I('n')]] + body
                inner = [I('lambda'), [I('m')]] + use([x] + k)[:2] + [[I('list'), x] + k[:2]]
                body = body + r.choice([[], [[I('funcall'), inner, 1]]])
                e = r.choice([e, [I('funcall'), inner, 2]])
            return [I('lambda'), [I('n')]] + body + [e]

        params = [fresh('a') for _ in range(r.randrange(0, 5))]
        vs = list(params)
        body, gs = [], []
        n = I('n')
        acc = fresh('acc')
        body.append([I('var'), acc, []])
        for _ in range(r.randrange(2, 7)):
            k = r.randrange(6)
            if k == 0 or not vs:
                v = fresh('v')
                body.append([I('var'), v, r.choice(vs) if vs and self.chance(0.3) else r.randrange(9)])
                vs.append(v)
            elif k in (1, 2):
                g = fresh('g')
                body.append([I('var'), g, clo(vs)])
                gs.append(g)
            elif k == 3:
                body.append([I('setq'), acc, [I('cons'), clo(vs), acc]])
            elif k == 4:
                w = fresh('w')
                body.append([[]] + [[I('var'), w, r.randrange(9)], [I('setq'), acc, [I('cons'), clo(vs + [w]), acc]],
                                    [I('setq'), acc, [I('cons'), clo([w] + vs), acc]]] +
                            ([[I('setq'), w, 70]] if self.chance(0.5) else []))
            else:
                i, w = fresh('i'), fresh('w')
                body += [[I('var'), i, 0], [I('while'), [I('<'), i, r.randrange(1, 4)], [I('var'), w, [I('*'), i, 10]],
                                            [I('setq'), acc, [I('cons'), clo(vs + [w]), acc]], [I('setq'), i, [I('+'), i, 1]]]]
            if gs and self.chance(0.3):
                body.append([I('emit'), [I('funcall'), r.choice(gs), r.randrange(5)]])
            if self.chance(0.2) and vs:
                body.append([I('setq'), r.choice(vs), r.randrange(30, 40)])
        for g in gs:
            body.append([I('setq'), acc, [I('cons'), g, acc]])
        if self.chance(0.5):
            v = fresh('z')      # slots above the captured ones when the scope ends
            body.append([I('var'), v, 5])
        body.append(acc)
        # the parameter n of the closures must not be captured from here
        out = [[I('defun'), mk, params] + body]
        res = []
        for _ in range(r.randrange(1, 3)):
            x = fresh('res')
            out.append([I('var'), x, [mk] + [r.randrange(9) for _ in params]])
            res.append(x)
        del n
        for _ in range(r.randrange(3, 9)):
            x = r.choice(res)
            k = r.randrange(4)
            e = x
            for _ in range(k):
                e = [I('cdr'), e]
            out.append(r.choice([[I('when'), e, [I('emit'), [I('funcall'), [I('car'), e], r.randrange(5)]]],
                                 [I('when'), e, [I('emit'), [I('funcall'), [I('car'), e], r.randrange(5)]]],
                                 [I('host-gc')], [mk] + [r.randrange(9) for _ in params]]))
        return out

    def s_deeprec(self, sc, d):
        r = self.r
        f = self.name('deep')
        k = r.choice([20, 40, 80])
        return [[I('defun'), f, [I('n'), I('acc')], [I('if'), [I('<'), I('n'), 1], [I('length'), I('acc')],
                 r.choice([[I('self'), [I('-'), I('n'), 1], [I('cons'), I('n'), I('acc')]],
                           [I('+'), [I('self'), [I('-'), I('n'), 1], [I('cons'), [I('lambda'), [], I('n')], I('acc')]], 1]])]],
                [I('emit'), [f, k, []]]]

    def s_churn(self, sc, d):
        """Make garbage, keep some of it."""
        r = self.r
        i, keep = I('i%d' % self.n), I('keep%d' % self.n)
        self.n += 1
        sc.vars[keep] = 'list'
        self.loopvars.add(i)
        junk = [r.choice([[I('list'), i, i], [I('vector'), i, [I('list'), 1]], [I('concatenate'), S(b'ab'), S(b'cd')], [I('lambda'), [], i],
                          [I('make-instance'), [I('make-type')], [I('list'), i], []], q([1, [2, 3], S(b'x')]), [I('cdr'), [I('vector'), 1, 2, i]]])
                for _ in range(r.randrange(1, 5))]
        kept = r.choice([[I('list'), i, [I('vector'), i, i]], [I('lambda'), [], [I('setq'), i, [I('+'), i, 1]]],
                         [I('concatenate'), S(b'k'), [I('make-string'), [I('list'), [I('+'), 97, i]]]], [I('cdr'), [I('vector'), 0, i, [I('list'), i]]],
                         [I('make-instance'), [I('make-type')], [I('list'), i], [I('lambda'), [I('z')], [I('list'), I('z'), i]]],
                         [I('cdr'), [I('concatenate'), S(b'zq'), S(b'wv')]]])
        n = r.choice([2, 4, 8, 12])
        return [[I('var'), i, 0], [I('var'), keep, []],
                [I('while'), [I('<'), i, n]] + junk +
                [[I('when'), r.choice([[I('<'), i, 3], True, [I('='), i, 1]]), [I('setq'), keep, [I('cons'), kept, keep]]],
                 [I('setq'), i, [I('+'), i, 1]]],
                [I('emit'), keep if n <= 4 else [I('if'), keep, [I('car'), keep], 0]], [I('emit'), [I('length'), keep]]]

    def junk(self, i):
        """An expression that makes something nobody keeps (i: an integer variable)."""
        r = self.r
        j = lambda: r.choice([i, [I('+'), i, 1], [I('list'), i], 7, S(b'q'), [], q(I('sy')), [I('vector'), i]])
        v = self.name('w')
        return r.choice([
            lambda: [I('list'), j(), j(), j()], lambda: [I('vector'), j(), [I('list'), j()]], lambda: [I('concatenate'), S(b'ab'), S(b'cd')],
            lambda: [I('lambda'), [], i], lambda: [I('funcall'), [I('lambda'), [], i]],
            lambda: [I('make-instance'), I('ty'), [I('list'), j()], []],
            lambda: [I('funcall'), [I('lambda'), [I('a'), I('&rest'), I('b')], [I('length'), I('b')]], j(), j(), j()],
            lambda: [I('cdr'), [I('vector'), 1, j(), i]], lambda: q([1, [2, 3], S(b'x')]), lambda: [I('make-string'), [I('list'), 65, 66]],
            lambda: [I('cdr'), [I('substring'), S(b'abcdef'), 1, 4]],
            lambda: [[], [I('var'), v, [I('cons'), j(), j()]], [I('set-cdr'), v, v], 0],
            lambda: [[], [I('var'), v, [I('vector'), j(), j()]], [I('set-vector-element'), v, 0, v], 0],
            lambda: [[], [I('var'), v, [I('make-instance'), I('ty'), j(), []]], [I('set-composite-value'), v, v], 0],
            lambda: [[], [I('var'), v, []], [I('setq'), v, [I('lambda'), [], v]], 0],
            lambda: [[], [I('var'), v, j()], [I('var'), I('u'), []], [I('setq'), I('u'), [I('lambda'), [], [I('setq'), v, I('u')]]], [I('funcall'), I('u')], 0],
            lambda: [I('host-call'), [I('lambda'), [I('a')], [I('list'), I('a'), i]], j()],
            lambda: [I('funcall'), [I('lambda'), [I('a')], [I('lambda'), [], [I('list'), I('a'), i]]], j()],
            lambda: [I('setq'), I('gl'), r.choice([[I('list'), i, i], [I('lambda'), [], i], [I('vector'), 1, 2], S(b'str'), [I('make-instance'), I('ty'), i, i]])],
            lambda: [I('host-user'), i],
            lambda: [I('length'), [I('funcall'), [I('lambda'), [I('n')], [I('if'), [I('<'), I('n'), 1], [], [I('cons'), I('n'), [I('self'), [I('-'), I('n'), 1]]]]], 5]],
            lambda: [I('apply'), [I('lambda'), [I('&rest'), I('a')], I('a')], [I('list'), 1, j(), 3]]])()

    def forever(self, n):
        """A loop that makes garbage n times over and keeps next to nothing."""
        r = self.r
        i = I('i')
        self.loopvars.add(i)
        body = [self.junk(i) for _ in range(r.randrange(2, 6))]
        body = [[I('setq'), I('last'), b] if r.random() < 0.25 and I('last') not in (b if isinstance(b, list) else []) else b for b in body]
        tail = [[I('setq'), i, [I('+'), i, 1]]]
        loop = [[], [I('var'), i, 0], [I('var'), I('last'), []], [I('while'), [I('<'), i, n]] + body + tail, [I('emit'), i]]
        if r.random() < 0.4:
            loop = [[], [I('defun'), I('step'), [I('i')]] + body[:3] + [i], [I('var'), i, 0], [I('var'), I('last'), []],
                    [I('while'), [I('<'), i, n], [I('step'), i]] + body[3:] + tail, [I('emit'), i]]
        return [[], [I('global'), I('gl'), []], [I('global'), I('ty'), [I('make-type')]]] + loop[1:]

    def redefine(self, n):
        """Many small pieces of code, each replacing what the one before defined."""
        i = I('i')
        ops = [('X', [[], [I('global'), I('gl'), []], [I('global'), I('ty'), [I('make-type')]]])]
        for k in range(n):
            b = self.junk(i)
            while b[0] == I('setq'):
                b = self.junk(i)
            ops.append(('X', [[], [I('var'), i, k], [I('setq'), I('gl'), [I('lambda'), [I('n')], [I('list'), I('n'), 1]]], b, [I('emit'), [I('funcall'), I('gl'), i]]]))
            ops.append((self.r.choice(['R', 'P']),))
            if self.r.random() < 0.1:
                ops.append(('G',))
        return ops

    def failures(self, n, deep=0.12):
        """Many programs that fail, deep inside something that holds on to a little memory, each cleared by the host."""
        r = self.r
        l, i = I('l'), I('i')
        keep = [[I('var'), l, []], [I('var'), i, 0], [I('while'), [I('<'), i, r.randrange(2, 12)], [I('setq'), l, [I('cons'), i, l]], [I('setq'), i, [I('+'), i, 1]]]]
        refused = lambda: r.choice([[I('if'), 1, 2], [I('car'), l, 2], [I('lambda'), 3, 4], [I('quote')], [I('while'), 1], [I('lambda'), [I('a'), I('&rest')], 2]])
        ops = [('X', [[], [I('global'), I('gl'), [I('quote'), [1, 2]]], [I('global'), I('ty'), [I('make-type')]]])]
        for k in range(n):
            e = r.choice([[I('car'), 5], [I('host-fail')], [I('get-vector-element'), [I('vector'), 1], 4], [I('funcall'), 3], [I('+'), l, 1],
                          [I('funcall'), [I('lambda'), [I('a')], l]], [I('apply'), [I('lambda'), [], l], [I('list'), 1]], refused(),
                          [I('comptime'), [I('car'), 1]], [I('quote')], [[], [I('defmacro'), I('mf'), [I('a')], [I('car'), 7]], [I('mf'), l]]])
            for _ in range(r.choice([0, 1, 2, 3, 3, 30])):
                d = self.name('f')
                e = r.choice([
                    lambda: [I('if'), True, e, l], lambda: [[], [I('defun'), d, [], [I('if'), [I('cdr'), l], e, 2]], [d]], lambda: [I('list'), l, e],
                    lambda: [I('funcall'), [I('lambda'), [I('a')], [I('if'), I('a'), e, l]], l], lambda: [I('host-call'), [I('lambda'), [I('a')], [I('cons'), l, e]], 2],
                    lambda: [[], [I('var'), d, [I('list'), 1, l]], [I('setq'), d, e], d], lambda: [I('apply'), [I('lambda'), [I('&rest'), I('a')], [I('list'), I('a'), e]], l],
                    lambda: [I('funcall'), [I('make-instance'), I('ty'), l, [I('lambda'), [], e]]],
                    lambda: [[], [I('defun'), d, [I('m')], [I('if'), [I('<'), I('m'), 1], e, [I('list'), [d, [I('-'), I('m'), 1]]]]], [d, r.randrange(1, 4)]]])()
            if r.random() < deep:
                e = r.choice([e, refused(), refused()])
                for _ in range(r.randrange(30, 75)):
                    e = [I('if'), l, e, 2]
            ops.append(('X', [[]] + keep + [[I('emit'), k], e, [I('emit'), l]]))
            ops.append(('R',))
            if r.random() < 0.2:
                ops.append(('X', [[], [I('emit'), [I('cons'), k, I('gl')]]]))
                ops.append((r.choice('RP'),))
        return ops + [('X', [[], [I('var'), i, 0], [I('while'), [I('<'), i, 5], [I('emit'), [I('list'), i, I('gl')]], [I('setq'), i, [I('+'), i, 1]]]])]

    def session(self, chunks, after=(), after_p=1.0):
        """Several chunks; lexical scopes end with their chunk, globals stay."""
        ops = []
        for i in range(chunks):
            ops.append(('X', self.chunk()))
            if i + 1 < chunks:
                for a in after:
                    if self.chance(after_p):
                        ops.append((a,))
        return ops

    def malformed(self):
        """A form the compiler refuses."""
        r = self.r
        return r.choice([[I('if'), 1, 2], [I('var'), 1, 2], [I('var'), I('a')], [I('setq'), 3, 4], [I('car')], [I('car'), 1, 2],
                         [I('cons'), 1], [I('lambda'), 3, 4], [I('lambda'), [I('a')]], [I('defun'), I('f'), [1], 2], [I('quote')],
                         [I('while'), 1], [I('when'), 1], [I('apply'), I('emit')], [I('global'), I('a'), 1, 2], [I('make-type'), 1],
                         [I('defun'), 4, [], 2], [I('lambda'), [I('&rest'), I('a')], 2], [I('lambda'), [I('a'), I('&rest')], 2], [I('substring'), 1, 2]])
