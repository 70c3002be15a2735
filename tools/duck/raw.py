"""Texts that may or may not be programs, and probes that must work after them."""
import random
from . import gen, sexp
from .sexp import Id, S, F, q

I = Id

SEEDS = [
    "(() (var a 1) (defun f (x &rest y) (setq a (+ a x)) (cons x y)) (f 1 2 3) (list a (quote (b c)) \"s\\n\\x41\"))",
    "(() (defmacro m (x) (list (quote +) 1 x)) (m 2))",
    "(() (comptime (defun g (x) (* x 2))) (defmacro k (x) (g x)) (k 21))",
    "(() (comptime (var z (quote ((a 1) (b 2)))) (cons 1 z)))",
    "(() (defmacro mk (n &rest b) (cons (quote ()) (cons n b))) (mk 1 2 3) (mk (mk 1 2) 3))",
    "(() (global v (vector 1 2.5 \"x\" (quote y))) (setq v (cdr v)) (get-vector-element v 1))",
    "((lambda (x) (setq x (* x 2)) x) ((lambda (y &rest z) z) 1 2))",
    "(while (< 1 0) (var a 2) (quote (d . e)))",
    "(() (var t (make-type)) (var c (make-instance t 1 (lambda (x) x))) (c 2) (composite-value c) (type-of c))",
    "(noscope (__defun r (n) (__if n (__+ n (self (__- n 1))) 0)) (r 10))",
    "(concatenate (substring \"hello\" 1 3) (symbol-string (quote sym)))",
    "(make-string (list 104 105 0 255))",
    "; comment\n(+ 1 2) ; more\n",
    "'(a 'b (c \"d\"))", "(quote -1.5)", "#(1 2)", "(car '(1 . 2))", "true", "()", "12", "(+ 2147483647 1)", "-3.25", "(length \"\\\\\\\"\")",
    "(() (declare f 2) (defun f (a b) (+ a b)) f f 1 2 3)", "(() (include \"/nonexistent\"))",
    "(() (defmacro gs () (gensym)) (gensym) (intern \"x\") (read false \"(a b)\"))",
    "(__error \"x\")", "(() (defun h (&rest a) (apply + a)) (h 1 2))",
]
TOKENS = ['(', ')', '(', ')', "'", '"', '"a"', '\\', ';', '\n', ' ', '.', '1', '-1', '0', '1.5', '.5', '1.', '-', '+', '*', '/', '=', '<', '>',
          'a', 'b', 'f', '&rest', 'self', 'var', 'setq', 'global', 'defun', 'lambda', 'quote', 'list', 'vector', 'cons', 'car', 'cdr',
          'if', 'when', 'unless', 'while', 'noscope', 'defmacro', 'comptime', 'funcall', 'apply', 'not', 'true', 'false', 'nil',
          'make-type', 'make-instance', 'composite-value', 'make-string', 'concatenate', 'substring', 'length', 'type-of',
          'symbol-string', 'symbol-id', 'intern', 'gensym', 'read', 'error', 'nop', 'make-vector', 'get-vector-element',
          'set-vector-element', 'set-car', 'set-cdr', 'null?', 'declare', 'include', '__declare', '"\\x', '\\n', '#', ',', '`', '@', '\t', '\x00', '\xff',
          '99999999999999999999', '1e5', '1.5e', '0x10', '-0', '--1', '1..2', '+1', 'emit', 'host-fail', 'host-gc']


def tokens(t):
    out, cur = [], ''
    for c in t:
        if c in '()\'" \n;':
            if cur:
                out.append(cur)
            cur = ''
            out.append(c)
        else:
            cur += c
    if cur:
        out.append(cur)
    return out


def text(r, base):
    """A text: base mutated, or token soup."""
    k = r.random()
    if k < 0.12:
        t = ''.join(r.choice(TOKENS) + r.choice(['', ' ']) for _ in range(r.randrange(1, 30)))
    elif k < 0.2:
        t = ''.join(chr(r.randrange(256)) for _ in range(r.randrange(1, 40)))
    elif k < 0.6:
        w = tokens(base)
        for _ in range(r.choice([1, 1, 1, 2, 3, 8])):
            if not w:
                break
            i = r.randrange(len(w))
            m = r.randrange(6)
            if m == 0:
                del w[i]
            elif m == 1:
                w.insert(i, r.choice(TOKENS))
            elif m == 2:
                w[i] = r.choice(TOKENS)
            elif m == 3:
                j = r.randrange(len(w))
                w[i], w[j] = w[j], w[i]
            elif m == 4:
                j = min(len(w), i + r.randrange(1, 12))
                w[i:i] = w[i:j]
            else:
                j = min(len(w), i + r.randrange(1, 6))
                del w[i:j]
        t = ''.join(w)
    else:
        t = list(base)
        for _ in range(r.choice([1, 1, 2, 4])):
            if not t:
                break
            i = r.randrange(len(t))
            m = r.randrange(5)
            if m == 0:
                del t[i]
            elif m == 1:
                t.insert(i, r.choice('()"\'\\; \n.1-&_') if r.random() < 0.8 else chr(r.randrange(256)))
            elif m == 2:
                t[i] = r.choice('()"\'\\; \n.1-&_a') if r.random() < 0.8 else chr(r.randrange(256))
            elif m == 3:
                t = t[:i]
            else:
                t = t[i:]
        t = ''.join(t)
    return t


def base(r, g):
    if r.random() < 0.5:
        return r.choice(SEEDS)
    t = sexp.text(g.chunk())
    return t if len(t) < 3000 else r.choice(SEEDS)


def nested(r):
    n = r.choice([50, 200, 600])
    a, b = r.choice([('(', ')'), ('(() ', ')'), ("'(", ')'), ('(quote ', ')'), ('(list ', ')'), ('(lambda () ', ')'), ('(if true ', ' 1)'), ('(car ', ')'),
                     ('(defun f () ', ')'), ('(noscope ', ')'), ("'", '')])
    return a * n + r.choice(['1', '', 'a', '"x"']) + b * r.choice([n, n, n - 1, n + 1])


KEEP = set()


def probe(r, **prof):
    """A program of local things only: its result does not depend on anything that happened before."""
    g = gen.Gen(r, ill=0, undef=0, hostcall=0, forms=(2, 5),
                stmts=dict({k: 0 for k in gen.DEFAULT['stmts']}, var=5, setq=4, defun=3, when=1, counter=1, nestclo=1, rec=1, churn=1, alias=1, strings=1, loopclo=1), **prof)
    t = g.chunk()
    kw = set(TOKENS) | {'emit', 'composite-function', 'set-composite-value', 'set-composite-function', 'n', 'self', '&rest'}

    def fix(x):
        if isinstance(x, Id):
            return x if x in kw else I(x + '-pq')
        if isinstance(x, list):
            if x and x[0] == 'emit':
                return [[]] + [fix(y) for y in x[1:]]
            if x and x[0] == 'host-gc':
                return []
            return [fix(y) for y in x]
        return x
    return fix(t)


FIXED_PROBES = [sexp.parse(t)[0] for t in (
    "(() (defun mk (a) (lambda (b) (setq a (+ a b)))) (var f-q (mk 1)) (funcall f-q 2) (list (funcall f-q 3) (car '(1 2))))".replace("'(1 2)", "(quote (1 2))"),
    "(() (var v-q (vector 1 2 3)) (var w-q (cdr v-q)) (set-vector-element w-q 1 (list 4 5)) (list v-q w-q (length v-q)))",
    "(() (defun va-q (a &rest b) (cons (length b) b)) (list (va-q 1) (va-q 1 2 3) (apply va-q (list 1 2))))",
    "(() (var i-q 0) (var s-q ()) (while (< i-q 4) (setq s-q (cons (concatenate \"a\" \"b\") s-q)) (setq i-q (+ i-q 1))) (list i-q s-q))",
    "(if (= (quote a) (quote a)) (substring \"hello\" 1 3) (/ 7 2))")]


def session(r, i, prop):
    g = gen.Gen(r, ill=0.05, undef=0.02, forms=(1, 3))
    ops = []
    for _ in range(r.randrange(1, 4)):
        t = nested(r) if r.random() < 0.04 else text(r, base(r, g))
        # compilation alone must come to an end, except where it runs the text's own code
        k = r.choice('UUUu')
        if k == 'u' and ('macro' in t or 'comptime' in t):
            k = 'U'
        ops.append((k, t.encode('latin-1')))
        if r.random() < 0.8:
            ops.append(('R',))
    if ops[-1] != ('R',):
        ops.append(('R',))
    if r.random() < 0.3:
        ops.append(('G',))
    # definitions a text makes at compile time may legitimately change what the probe means
    if not any(o[0] in 'Uu' and (b'macro' in o[1] or b'comptime' in o[1]) for o in ops):
        ops.append(('X', r.choice(FIXED_PROBES) if r.random() < 0.6 else probe(r)))
        ops.append(('R',))
    return ops
