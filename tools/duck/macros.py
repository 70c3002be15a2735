"""Programs with macros and compile-time code.  Ordinary programs are taken and parts of them are put back as calls of macros
that expand to them."""
import copy
from . import gen, sexp
from .sexp import Id, S, F, q

I = Id
C = lambda *a: [I(a[0])] + list(a[1:])
WAYS = {'template': 8, 'identity': 1, 'constants': 2, 'library': 2, 'symbols': 0.7, 'errors': 0.5, 'keywords': 0.7, 'captures': 1}
BODY = {'defun': 3, 'lambda': 2, 'while': 2, 'when': 2, 'unless': 2, 'noscope': 1}
DECL = {'var', 'defun', 'noscope', 'defmacro'}


def head(t):
    return str(t[0]) if isinstance(t, list) and t and isinstance(t[0], Id) else ''


class Pos:
    """A place in a program where code is evaluated: a list and an index, and the sequence of forms it belongs to."""

    def __init__(self, l, i, seq, at, kind, inside):
        self.l, self.i, self.seq, self.at, self.kind, self.inside = l, i, seq, at, kind, inside

    def get(self):
        return self.l[self.i]


def positions(t, seq=None, at=0, inside=0):
    """All of them, outermost first."""
    if not isinstance(t, list) or not t:
        return
    h = head(t)
    if h in ('quote', 'defmacro', 'comptime', 'read'):
        return
    if not isinstance(t[0], Id):
        first, seqs = (1 if t[0] == [] else 0), True
    elif h in ('var', 'global', 'setq'):
        first, seqs = 2, False
    elif h in BODY:
        first, seqs = BODY[h], True
        if h in ('while', 'when', 'unless') and len(t) > 1:
            yield Pos(t, 1, seq, at, 'e', inside)
            yield from positions(t[1], seq, at, inside)
    else:
        first, seqs = 1, False
    deeper = inside + (h in ('defun', 'lambda', 'while'))
    for j in range(first, len(t)):
        if seqs and h != 'noscope' and isinstance(t[j], list) and head(t[j]) in DECL:
            yield Pos(t, j, t, j, 's', deeper)
        else:
            yield Pos(t, j, t if seqs and h != 'noscope' else seq, j if seqs and h != 'noscope' else at, 's' if seqs else 'e', deeper)
        yield from positions(t[j], *((t, j) if seqs and h != 'noscope' else (seq, at)), deeper)


def size(t):
    return 1 + sum(size(x) for x in t) if isinstance(t, list) else 1


def has(t, f):
    return f(t) or isinstance(t, list) and any(has(x, f) for x in t)


class MacroGen(gen.Gen):
    def __init__(self, rng, **prof):
        super().__init__(rng, **prof)
        self.mn = 0

    def fresh(self, b):
        self.mn += 1
        return I('%s-%d' % (b, self.mn))

    # ---- code that makes code ----

    def make(self, t, holes):
        """An expression whose value is t, with the names in holes standing for the values of those variables."""
        r = self.r
        if isinstance(t, Id) and t in holes:
            return t
        if not has(t, lambda x: isinstance(x, Id) and x in holes):
            if t == [] and isinstance(t, list):
                return []
            if isinstance(t, (Id, list)):
                if isinstance(t, list) and self.chance(0.4):
                    return C('list', *[self.make(x, holes) for x in t])
                return q(t)
            return t if self.chance(0.8) else q(t)
        x = r.random()
        if x < 0.6 or not t:
            return C('list', *[self.make(y, holes) for y in t])
        if x < 0.9:
            return C('cons', self.make(t[0], holes), self.make(t[1:], holes))
        return C('apply', C('lambda', [I('&rest'), I('l')], I('l')), C('list', *[self.make(y, holes) for y in t]))

    def cut(self, t, n):
        """Replace up to n parts of t by names.  Returns the rest and [(name, part)]."""
        t = copy.deepcopy(t)
        parts = []
        for _ in range(n):
            places = []

            def walk(x):
                for i, y in enumerate(x):
                    if not (isinstance(y, Id) and str(y).startswith('h-')) and not isinstance(y, sexp.Pad) and not has(y, lambda z: isinstance(z, Id) and str(z).startswith('h-')):
                        places.append((x, i))
                    if isinstance(y, list):
                        walk(y)
            if isinstance(t, list):
                walk(t)
            if not places:
                break
            l, i = self.r.choice(places)
            h = self.fresh('h')
            parts.append((h, l[i]))
            l[i] = h
        self.r.shuffle(parts)
        return t, parts

    def chatter(self, params):
        """Statements for the body of a macro that show that it runs, and when."""
        r = self.r
        out = []
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            out.append(r.choice([
                lambda: C('emit', r.randrange(100)),
                lambda: C('emit', r.choice(params) if params else 5),
                lambda: C('setq', I('ctg'), C('+', I('ctg'), 1)),
                lambda: C('emit', C('setq', I('ctg'), C('+', I('ctg'), 1))),
                lambda: C('var', I('w'), C('list', 1, 2)),
                lambda: C('emit', C('length', C('list', *params))),
                lambda: C('global', I('ctl'), r.choice(params) if params else 5),
                lambda: C('emit', I('ctg')),
                lambda: C('host-gc'),
                lambda: C('emit', C('funcall', C('lambda', [I('z')], C('cons', I('z'), I('z'))), r.choice(params) if params else 5))])())
        return out

    def place(self, p, d):
        """Put a definition somewhere before the form at p."""
        if p.seq is not None and self.chance(0.6):
            p.seq.insert(p.at, d)
        else:
            # after the empty list that opens the program
            self.top.insert(1, d)

    def targets(self, t):
        ps = [p for p in positions(t) if not isinstance(p.get(), sexp.Pad) and 1 <= size(p.get()) < 120]
        return ps

    def template(self, t):
        """One form of the program becomes a macro call."""
        r = self.r
        ps = self.targets(t)
        if not ps:
            return
        p = r.choice(ps)
        e = p.get()
        body, parts = self.cut(e, r.choice([0, 1, 1, 2, 2, 3, 4]))
        name = self.fresh('m') if self.chance(0.93) else I(r.choice(['not', 'car', 'list', 'cons', 'when', 'if', 'length', 'emit', 'm-1', 'm-2']))
        if name in ('list', 'cons', 'not', 'car', 'when', 'if', 'length', 'emit') and has(t, lambda x: x == name) and self.chance(0.9):
            name = self.fresh('m')
        ps_ = [h for h, _ in parts]
        args = [a for _, a in parts]
        params = list(ps_)
        made = self.make(body, set(ps_))
        call = [name]
        k = r.randrange(8)
        if k == 0 and params:
            # the last parameters arrive in a list
            i = r.randrange(0, len(params))
            rest = self.fresh('r')
            tail = params[i:]
            params = params[:i] + [I('&rest'), rest]
            lets = []
            cur = rest
            for h in tail:
                lets.append(C('var', h, C('car', cur)))
                cur = C('cdr', cur)
            inner = self.chatter(ps_) + lets + [made]
        elif k == 1 and params:
            # an unused parameter
            params.append(self.fresh('u'))
            args.append(self.expr(gen.Scope(), 'any', 2))
            inner = self.chatter(ps_) + [made]
        elif k == 2:
            # it depends
            x = self.fresh('u')
            params = [x] + params
            args = [r.choice([[], True, False, 5, I('yes'), [1], C('car', 5)])] + args
            inner = self.chatter(ps_) + [C('if', x, made, self.make(body, set(ps_)) if self.chance(0.5) else made)]
        elif k == 3 and params:
            # through a local function of the macro
            f = self.fresh('f')
            inner = self.chatter(ps_) + [C('defun', f, list(ps_), made), C(f, *ps_)]
            inner[-1] = [f] + list(ps_)
        elif k == 4 and params:
            # the same part twice, then thrown away
            inner = self.chatter(ps_) + [C('car', C('cdr', C('list', r.choice(ps_), made)))]
        else:
            inner = self.chatter(ps_) + [made]
        d = C('defmacro', name, params, *inner)
        p.l[p.i] = call + args
        if k == 5:
            # a macro that expands to the call
            m2 = self.fresh('mm')
            x = self.fresh('x')
            d2 = C('defmacro', m2, [I('&rest'), x], C('cons', q(name), x))
            p.l[p.i] = [m2] + args
            for dd in ([d2, d] if self.chance(0.5) else [d, d2]):
                self.place(p, dd)
        elif k == 6 and p.kind == 's' and p.seq is p.l:
            # a macro that defines the macro
            m2 = self.fresh('md')
            p.seq.insert(p.at, [m2])
            p.seq.insert(p.at, C('defmacro', m2, [], self.make(d, set())))
        else:
            self.place(p, d)

    def identity(self, t):
        ps = self.targets(t)
        if not ps:
            return
        n = self.fresh('id')
        used = self.r.sample(ps, min(len(ps), self.r.randrange(1, 5)))
        for p in used:
            p.l[p.i] = [n, p.get()]
        self.top.insert(1, C('defmacro', n, [I('x')], *self.chatter([I('x')]), I('x')))

    def ctexpr(self, ty, d=3):
        g = gen.Gen(self.r, depth=d, hostcall=0.1, stmts=self.p['stmts'], types=['int', 'int', 'bool', 'flt', 'str', 'list', 'vec', 'sym', 'clo'])
        return g.expr(gen.Scope(), ty, d)

    def constants(self, t):
        """Some literals are computed while compiling."""
        r = self.r
        ps = [p for p in self.targets(t) if not isinstance(p.get(), (list, Id)) and isinstance(p.get(), (int, bytes, bool, F))]
        for p in r.sample(ps, min(len(ps), r.randrange(1, 4))):
            v = p.get()
            ty = 'bool' if isinstance(v, bool) else 'int' if isinstance(v, int) else 'str' if isinstance(v, S) else 'flt'
            pre = []
            x = r.randrange(5)
            if x == 0:
                w = self.fresh('w')
                pre = [C('var', w, self.ctexpr(ty)), C('emit', w)]
                v = w
            elif x == 1:
                v = self.ctexpr(ty)
            elif x == 2:
                pre = [C('setq', I('ctg'), C('+', I('ctg'), 1)), C('emit', I('ctg'))]
            elif x == 3:
                f = self.fresh('f')
                n = I('n')
                pre = [C('defun', f, [n], C('if', C('<', n, 1), v, C('self', C('-', n, 1))))]
                v = [f, 3]
            p.l[p.i] = C('comptime', *pre, v)

    def ctstate(self):
        """Compile-time variables and functions for the macros of this and later programs."""
        r = self.r
        out = [C('comptime', C('global', I('ctg'), r.randrange(10)))]
        if self.chance(0.3):
            v = self.fresh('cv')
            out.append(C('comptime', C('var', v, r.randrange(5)), C('emit', v)))
            m = self.fresh('m')
            out.append(C('defmacro', m, [], C('setq', v, C('+', v, 1)), v))
            self.macros.append((m, 0))
        if self.chance(0.3):
            f = self.fresh('cf')
            out.append(C('comptime', C('defun', f, [I('x')], C('list', q(I('+')), I('x'), 1)), C('emit', [f, 2])))
            m = self.fresh('m')
            out.append(C('defmacro', m, [I('x')], [f, I('x')]))
            self.macros.append((m, 1))
        return out

    LIBRARY = {
        'my-and': '(defmacro my-and (&rest b) (if b (if (cdr b) (list (quote if) (car b) (cons (quote my-and) (cdr b)) false) (car b)) true))',
        'my-or': '(defmacro my-or (&rest b) (if b (noscope (var g (gensym)) (list () (list (quote var) g (car b)) (list (quote if) g g (cons (quote my-or) (cdr b))))) false))',
        'my-or2': '''(defmacro my-or2 (&rest b) (if b (if (cdr b) (() (var g (gensym)) (list () (list (quote var) g (car b)) (list (quote if) g g
            (cons (quote my-or2) (cdr b))))) (car b)) false))''',
        'my-let': '''(defmacro my-let (bs &rest body) (defun vars (l) (if l (cons (list (quote var) (car (car l)) (car (cdr (car l)))) (self (cdr l))) body))
            (cons () (vars bs)))''',
        'my-let2': '''(defmacro my-let2 (bs &rest body) (var ps ()) (var as ()) (while bs (setq ps (cons (car (car bs)) ps)) (setq as (cons (car (cdr (car bs))) as))
            (setq bs (cdr bs))) (cons (quote funcall) (cons (cons (quote lambda) (cons ps body)) as)))''',
        'my-cond': '''(defmacro my-cond (&rest cs) (if cs (list (quote if) (car (car cs)) (cons () (cdr (car cs))) (cons (quote my-cond) (cdr cs))) ()))''',
        'dotimes': '''(defmacro dotimes (i n &rest body) (var g (gensym)) (list () (list (quote var) g n) (list (quote var) i 0)
            (cons (quote while) (cons (list (quote <) i g) (cons (cons () body) (list (list (quote setq) i (list (quote +) i 1))))))))''',
        'swap': '''(defmacro swap (a b) (var g (gensym)) (list () (list (quote var) g a) (list (quote setq) a b) (list (quote setq) b g)))''',
        'inc': '(defmacro inc (x) (list (quote setq) x (list (quote +) x 1)))',
        'fact': '''(defmacro fact (n) (defun f (n) (if (< n 2) 1 (* n (self (- n 1))))) (f n))''',
        'unroll': '''(defmacro unroll (n &rest b) (defun rep (n) (if (< n 1) () (cons (cons () b) (self (- n 1))))) (cons () (cons 0 (rep n))))''',
        'thread': '''(defmacro thread (x &rest fs) (while fs (setq x (cons (car (car fs)) (cons x (cdr (car fs))))) (setq fs (cdr fs))) x)''',
        'rev': '''(defmacro rev (&rest l) (var o ()) (while l (setq o (cons (car l) o)) (setq l (cdr l))) (cons (quote list) o))''',
        'qq': '''(defmacro qq (x) (defun w (t) (if (if t (= (type-of t) (type-of (quote (1)))) false) (if (= (car t) (quote unq)) (car (cdr t))
            (list (quote cons) (self (car t)) (self (cdr t)))) (list (quote quote) t))) (w x))''',
        'defun2': '''(defmacro defun2 (n ps &rest b) (cons (quote defun) (cons n (cons ps b))))''',
        'both': '''(defmacro both (a b) (list (quote noscope) (list (quote var) a 1) (list (quote var) b (list (quote +) a 1))))''',
        'mk': '''(defmacro mk (n) (list (quote defmacro) n (quote (x)) (list (quote list) (quote (quote +)) (quote x) 1)))''',
        'anaph': '(defmacro anaph (c a b) (list () (list (quote var) (quote it) c) (list (quote if) (quote it) a b)))',
    }

    def library(self, t):
        """Uses of well-known macros, put among the statements."""
        r = self.r
        names = r.sample(sorted(self.LIBRARY), r.randrange(1, 5))
        # the sequences of the program
        seqs = [p for p in positions(t) if p.kind == 's' and p.seq is p.l]
        for n in names:
            d = sexp.parse(self.LIBRARY[n])[0]
            use = self.use(n)
            if seqs and self.chance(0.5):
                p = r.choice(seqs)
                p.l.insert(p.i, use[0])
                p.l[p.i + 1:p.i + 1] = use[1:]
            else:
                t[len(t) - 1:len(t) - 1] = use
            self.top.insert(1, d)

    def use(self, n):
        r = self.r
        sc = gen.Scope()
        e = lambda ty='int', d=2: self.expr(sc, ty, d)
        em = lambda x: C('emit', x)
        v, w = self.fresh('lv'), self.fresh('lw')
        some = lambda: r.choice([True, False, 1, [], e('bool'), em(r.choice([True, False, 3])), C('setq', v, C('+', v, 1))])
        var = [C('var', v, r.randrange(5)), C('var', w, r.randrange(5))]
        show = em(C('list', v, w))
        if n in ('my-and', 'my-or', 'my-or2'):
            return var + [em([I(n)] + [some() for _ in range(r.randrange(0, 5))]), show]
        if n in ('my-let', 'my-let2'):
            b = [[v, e()], [w, r.choice([e(), 3] if n == 'my-let2' else [e(), v])]]
            return [em([I(n), b, C('setq', v, C('+', v, w)), r.choice([C('list', v, w), C('lambda', [], v), [I(n), [[v, 9]], C('list', v, w)]])])]
        if n == 'my-cond':
            return var + [em([I(n)] + [[some(), em(k), k] for k in range(r.randrange(0, 4))])]
        if n == 'dotimes':
            b = C('dotimes', w, 2, C('setq', v, C('+', v, w))) if self.chance(0.4) else C('setq', v, C('+', v, w))
            i = self.fresh('i')
            return var + [C('dotimes', i, C('emit', r.randrange(4)), em(i), b), show]
        if n == 'swap':
            return var + [[I(n), v, w], show] + ([C('funcall', C('lambda', [I('a')], [I(n), I('a'), v], em(I('a'))), 70), show] if self.chance(0.5) else [])
        if n == 'inc':
            return var + [em([I(n), v]), C('funcall', C('lambda', [], [I(n), v], [I(n), w])), show]
        if n == 'fact':
            return [em([I(n), r.randrange(8)])]
        if n == 'unroll':
            return var + [em([I(n), r.randrange(4), C('setq', v, C('+', v, 2)), em(v)])]
        if n == 'thread':
            return [em([I(n), e(), [I('+'), 1], [I('-'), e()], [I('cons'), 3]][:r.randrange(2, 6)])]
        if n == 'rev':
            return [em([I(n)] + [em(e('any')) for _ in range(r.randrange(4))])]
        if n == 'qq':
            def dat(d):
                x = r.random()
                if d == 0 or x < 0.3:
                    return r.choice([1, 2, S(b's'), I('y'), I('if')])
                if x < 0.5:
                    return [I('unq'), e()]
                return [dat(d - 1) for _ in range(r.randrange(1, 4))]
            return [em([I(n), dat(3)])]
        if n == 'defun2':
            f = self.fresh('df')
            return [[I(n), f, [I('a')], em(I('a')), C('+', I('a'), 1)], em([f, 5])]
        if n == 'both':
            return [[I(n), v, w], show, C('setq', v, 40), show]
        if n == 'mk':
            m = self.fresh('mkd')
            return [[I(n), m], em([m, e()])]
        return var + [em([I(n), some(), I('it'), C('list', I('it'), 1)])]

    def symbols(self, t):
        """gensym, intern and read while compiling."""
        r = self.r
        g = lambda: C('gensym')
        out = []
        texts = [b'1', b'(a b)', b'"x y"', b'foo', b'(+ 1 2)', b'()', b'2.5', b'false', b'(quote (a))', b'(emit 3)', b'((a) "q" 1.5 -3)', b' ; c\n 5', b'-7', b'(lambda (x) x)']
        for _ in range(r.randrange(1, 4)):
            x = r.randrange(11)
            nm = r.choice([b'a', b'foo', b'x y', b'new-one', b'if', b'', b'1', b'car'])
            out.append(r.choice([]) if False else {
                0: lambda: C('comptime', C('var', I('s'), g()), C('emit', C('=', I('s'), I('s'))), C('emit', C('=', I('s'), g())), 0),
                1: lambda: C('comptime', C('emit', C('=', C('intern', S(nm)), q(I('foo')))), 0),
                2: lambda: C('comptime', C('emit', C('intern', S(nm))), 0),
                3: lambda: C('emit', C('comptime', C('=', C('intern', S(nm)), C('intern', S(nm))))),
                4: lambda: C('comptime', C('emit', C('read', S(r.choice(texts)), False)), 0),
                5: lambda: C('emit', C('comptime', C('type-of', g())) if False else C('comptime', C('length', C('symbol-string', q(I('foo')))))),
                6: lambda: C('comptime', C('emit', C('=', g(), g())), C('emit', C('type-of', g())), 0),
                7: lambda: C('comptime', C('emit', C('symbol-string', C('intern', S(nm)))), 0),
                8: lambda: C('comptime', C('emit', C('intern', r.choice([5, [], q(I('a'))]))), 0),
                9: lambda: C('comptime', C('emit', C('read', r.choice([5, S(b'('), S(b')'), S(b''), S(b'(a "b'), q(I('a'))]), r.choice([False, False, False, 1]))), 0),
                10: lambda: [[], C('defmacro', I('rd'), [], C('car', C('read', S(r.choice(texts)), False))), C('emit', [I('rd')])]}[x]())
        for o in out:
            t.insert(r.randrange(1, len(t)), o)

    def errors(self, t):
        """Something goes wrong while compiling."""
        r = self.r
        bad = r.choice([C('car', 5), C('nosuch', 1), I('nosuch'), C('host-fail'), C('+', 1, S(b'x')), C('/', 1, 0), C('get-vector-element', C('vector', 1), 3)])
        m = self.fresh('mb')
        e = r.choice([
            lambda: C('comptime', C('emit', 1), bad, 2), lambda: C('comptime', C('lambda', [], 1)), lambda: C('emit', C('comptime', C('lambda', [I('x')], I('x')))),
            lambda: [[], C('defmacro', m, [I('a')], C('emit', 2), bad, I('a')), C('emit', 3), [m, 1]],
            lambda: [[], C('defmacro', m, [I('a')], I('a')), C('emit', [m] + [1] * r.choice([0, 2, 3]))],
            lambda: [[], C('defmacro', m, [I('a'), I('b'), I('&rest'), I('c')], C('list', q(I('list')), I('a'), I('b'))), C('emit', [m] + [1] * r.randrange(4))],
            lambda: [[], C('defmacro', m, [I('a')], C('lambda', [], I('a'))), [m, 1]], lambda: [[], C('defmacro', m, [], C('vector', 1)), [m]],
            lambda: [[], C('defmacro', m, [], C('cons', 1, 2)), C('emit', [m])], lambda: C('defmacro', m, [I('a')]), lambda: C('defmacro', 5, [], 1),
            lambda: C('defmacro', m, 5, 1), lambda: C('comptime', C('defmacro', m, [], 5), [m]), lambda: C('comptime', C('if', 1, 2)),
            lambda: [[], C('defmacro', m, [], q(C('if', 1))), C('emit', 1), [m]], lambda: [[], C('defmacro', m, [], C('if', 1)), [m]],
            lambda: [[], C('defmacro', m, [], self.make(bad, set())), C('emit', 1), [m], C('emit', 2)],
            lambda: C('comptime', C('setq', I('ctg'), 77), bad)])()
        ps = [p for p in positions(t) if p.kind == 's' and p.seq is p.l]
        p = r.choice(ps)
        p.l.insert(p.i, e)

    def keywords(self, t):
        """A keyword becomes a macro or a function."""
        r = self.r
        k = r.choice(['not', 'car', 'when', 'unless', 'if', 'length', 'cons', 'setq', 'quote', 'null?', 'list', 'var', 'while', 'defun', 'lambda', '+', 'global'])
        n = {'if': 3, 'cons': 2, 'setq': 2, 'when': 2, 'unless': 2, 'var': 2, 'while': 2, '+': 2, 'global': 2, 'defun': 3, 'lambda': 2}.get(k, 1)
        ps = [I('ka%d' % i) for i in range(n)]
        x = r.randrange(4)
        if x == 0 or k in ('when', 'unless', 'while', 'defun', 'lambda', 'list') and x == 1:
            d = C('defmacro', I(k), [I('&rest'), I('kr')], C('cons', q(I('__' + k)), I('kr')))
        elif x == 1:
            d = C('defmacro', I(k), ps, *self.chatter(ps), C('list', q(I('__' + k)), *ps))
        elif x == 2 and k not in ('defun', 'lambda', 'var', 'setq', 'quote', 'global', 'while'):
            d = C('defun', I(k), ps, C('emit', S(k.encode())), ps[0])
        else:
            d = C('defmacro', I(k), ps, r.choice([ps[0], 5, C('list', q(I('emit')), q(q(I(k))))]))
        ps2 = [p for p in positions(t) if p.kind == 's' and p.seq is p.l]
        p = r.choice(ps2)
        p.l.insert(p.i if self.chance(0.7) else 1 if p.l[0] == [] else p.i, d)

    def captures(self, t):
        """Macro expansions that name the variables around their call."""
        r = self.r
        v = self.fresh('v')
        m = self.fresh('m')
        d = r.choice([C('defmacro', m, [], q(v)), C('defmacro', m, [I('&rest'), I('x')], C('if', I('x'), C('list', q(I('setq')), q(v), C('car', I('x'))), q(v))),
                      C('defmacro', m, [], q(C('setq', v, C('+', v, 1))))])
        call = [m]
        uses = [C('emit', call), C('emit', C('list', call, 1, call)), C('emit', C('funcall', C('lambda', [I('a')], call), 5)), call,
                C('emit', C('funcall', C('lambda', [v], C('list', call, v)), 70)), [[], C('var', v, 30), C('emit', call)], C('setq', v, C('+', call, 1)),
                C('var', self.fresh('y'), call), C('emit', C('+', call, call)), C('if', call, C('emit', call), 0), C('host-gc'), C('emit', v),
                C('emit', C('funcall', C('lambda', [], C('lambda', [], call)))), C('when', True, C('var', self.fresh('z'), 5), C('emit', call))]
        out = [d, C('var', v, 4)] if self.chance(0.8) else [C('global', v, 3), d]
        out += [r.choice(uses) for _ in range(r.randrange(2, 6))]
        ps = [p for p in positions(t) if p.kind == 's' and p.seq is p.l]
        p = r.choice(ps)
        p.l[p.i:p.i] = out

    def macrochunk(self, ways=None, n=None):
        r = self.r
        self.macros = []
        t = self.chunk()
        self.top = t
        ways = ways or WAYS
        for _ in range(n or r.randrange(1, 5)):
            k = r.choices(list(ways), list(ways.values()))[0]
            getattr(self, k)(t)
        state = self.ctstate() if has(t, lambda x: x == 'ctg') or self.chance(0.3) else []
        for m, k in self.macros:
            t.insert(len(t) - 1, C('emit', [m] + [self.expr(gen.Scope(), 'int', 2) for _ in range(k)]))
            if self.chance(0.5):
                t.insert(len(t) - 1, C('emit', [m] + [self.expr(gen.Scope(), 'int', 1) for _ in range(k)]))
        t[1:1] = state
        if self.chance(0.25) and len(t) > 2:
            # not wrapped in a scope: a single form
            t = t[self.r.randrange(1, len(t))]
            t = t if isinstance(t, list) and t else C('emit', t)
        return t
