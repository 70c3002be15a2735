"""The registered checks."""
import os
import random
from . import api, gen, infer, lang, libs, macros, numbers, raw, reader, run, sexp
from .lang import Variant

CHECKS = {}


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


def n_for(chk, quick, thorough):
    n = quick if chk.tier == 'quick' else thorough
    return max(1, int(n * float(os.environ.get('DUCK_SCALE', 1))))


def programs(chk, n, **prof):
    """n single-chunk sessions."""
    out = []
    for i in range(n):
        g = gen.Gen(random.Random('%s/%d/%d' % (chk.prop, chk.seed, i)), **prof)
        out.append(run.Session('%s-%d' % (chk.prop, i), [('X', g.chunk())]))
    return out


def sessions(chk, n, chunks=(2, 5), after=('R',), after_p=1.0, edit=None, **prof):
    """n sessions of several chunks."""
    out = []
    for i in range(n):
        r = random.Random('%s/s/%d/%d' % (chk.prop, chk.seed, i))
        g = gen.Gen(r, **prof)
        ops = g.session(r.randrange(*chunks), after, after_p)
        if edit:
            ops = edit(r, g, ops)
        out.append(run.Session('%s-s%d' % (chk.prop, i), ops))
    return out


def only(**w):
    """Statement weights: the given ones, others scaled down."""
    d = {k: v * 0.25 for k, v in gen.DEFAULT['stmts'].items()}
    d.update(w)
    return d


# the ordinary build, and one that collects at every allocation
DEF, GC_OFTEN = Variant('default'), Variant('stress', objs=1500, flags='x')


@check('C01')
def c01(chk):
    s = programs(chk, n_for(chk, 2200, 50000))
    # programs of a single form, which is not in a scope
    for x in programs(chk, n_for(chk, 300, 10000)):
        t = [f for f in x.ops[0][1][1:] if isinstance(f, list) and f]
        s += [run.Session('%s-f%d' % (x.sid, j), [('X', f), ('X', f)]) for j, f in enumerate(t[:4])]
    lang.run_language(chk, s, [DEF, GC_OFTEN])


@check('C02')
def c02(chk):
    w = only(counter=3, loopclo=3, nestclo=3, web=7, capglobal=2, rec=2, defun=2, setq=3, var=2, useglobal=1)
    s = programs(chk, n_for(chk, 1500, 30000), stmts=w, forms=(3, 9), ill=0.0005, undef=0.0005)
    s += sessions(chk, n_for(chk, 400, 8000), (2, 4), ('R',), 0.7, stmts=w, forms=(2, 5), ill=0.0005, undef=0.0005)
    lang.run_language(chk, s, [DEF, GC_OFTEN])


@check('C03')
def c03(chk):
    w = only(churn=6, capglobal=2, callback=2, composite=2, alias=2, strings=2, nestclo=2, deeprec=1, counter=1, gc=1, varcall=2, web=2)
    v = [Variant('asan', objs=o, flags=f) for o, f in ((3000, '-'), (150, '-'), (75, '-'))]
    v += [Variant('stress-asan', objs=o, flags=f) for o, f in ((1500, 'x'), (500, 'y'))]
    s = programs(chk, n_for(chk, 900, 20000), stmts=w, forms=(3, 8))
    s += sessions(chk, n_for(chk, 250, 5000), (2, 4), ('R', 'G'), 0.6, stmts=w, forms=(2, 4))
    lang.run_language(chk, s, v)


@check('C04')
def c04(chk):
    n = n_for(chk, 2000, 40000)
    api.judge(chk, [(c, histories(chk, c, n, heap, gc, users=u, wild=.05, gc=g, calls=.5))
                    for c, heap, gc, u, g in (('asan', [3000], 0, .35, .1), ('portable-asan', [150, 200, 300], 0, .3, .01), ('stress-asan', [300, 900], 2, .35, .05))])
    # programs that go on and on in 60 objects: running out of memory is a violation
    s = []
    for i in range(n_for(chk, 240, 4000)):
        s.append(run.Session('f%d' % i, [('X', gen.Gen(random.Random('C04/f%d/%d' % (chk.seed, i))).forever(100))]))
    for i in range(n_for(chk, 40, 600)):
        s.append(run.Session('r%d' % i, gen.Gen(random.Random('C04/r%d/%d' % (chk.seed, i))).redefine(60)))
    lang.run_language(chk, s, [Variant('default', objs=60), Variant('portable', objs=60), Variant('stress', objs=60, flags='y')], allow_oom=False, batch=600)
    # programs that fail leave nothing behind, at run time and at compile time
    s = [run.Session('e%d' % i, gen.Gen(random.Random('C04/e%d/%d' % (chk.seed, i))).failures(45)) for i in range(n_for(chk, 60, 1200))]
    lang.run_language(chk, s, [Variant('default', objs=200, comp=300), Variant('portable', objs=200, comp=300)], allow_oom=False)


@check('C05')
def c05(chk):
    """Every configuration, with code around the sizes where operands and jumps change encoding."""
    v = [Variant(c) for c in ('default', 'inference', 'portable', 'no-optimize')]
    s = programs(chk, n_for(chk, 900, 20000))
    w = only(pad=6, manyvars=1)
    s += [run.Session('p' + x.sid, x.ops) for x in
          programs(chk, n_for(chk, 500, 10000), stmts=w, forms=(2, 6), pad=(1, 70), vars=(5, 300))]
    w = only(wideops=12)
    s += [run.Session('w' + x.sid, x.ops) for x in
          programs(chk, n_for(chk, 160, 4000), stmts=w, forms=(1, 2))]
    w = only(pad=8)
    s += [run.Session('q' + x.sid, x.ops) for x in
          programs(chk, n_for(chk, 60, 600), stmts=w, forms=(1, 3), pad=(60, 900))]
    lang.run_language(chk, s, v, batch=1500)
    # four-byte operands: more than 65535 live variables
    lang.run_language(chk, programs(chk, n_for(chk, 24, 400), stmts=only(wideops=40), forms=(1, 2), hugepad=1.0),
                      [DEF, Variant('no-optimize')])


@check('C06')
def c06(chk):
    w = only(varcall=10, badcall=1.5, defun=2, rec=1, callback=1)
    s = programs(chk, n_for(chk, 900, 20000), stmts=only(varcall=10, defun=2, rec=1), forms=(3, 8), hostcall=0.3)
    s += sessions(chk, n_for(chk, 700, 14000), (2, 5), ('R',), stmts=w, forms=(1, 4), hostcall=0.3)
    lang.run_language(chk, s, [DEF, GC_OFTEN])


@check('C07')
def c07(chk):
    w = only(alias=8, strings=3, mutate=3, churn=1)
    t = ['int', 'list', 'vec', 'str', 'sym', 'list', 'vec']
    s = programs(chk, n_for(chk, 900, 20000), stmts=w, forms=(3, 8), types=t)
    s += sessions(chk, n_for(chk, 700, 14000), (2, 5), ('R',), stmts=w, forms=(1, 4), types=t)
    lang.run_language(chk, s, [DEF, GC_OFTEN])


@check('C08')
def c08(chk):
    numbers.c08(chk, n_for)


@check('C09')
def c09(chk):
    w = only(composite=8, mutate=2)
    t = ['int', 'comp', 'comp', 'list', 'str', 'clo', 'vec', 'sym', 'flt', 'bool', 'type']
    s = programs(chk, n_for(chk, 1100, 20000), stmts=w, forms=(3, 8), types=t)
    s += sessions(chk, n_for(chk, 500, 10000), (2, 5), ('R',), 0.8, stmts=w, forms=(1, 4), types=t)
    lang.run_language(chk, s, [DEF, GC_OFTEN])


def break_some(r, g, ops):
    out = []
    for o in ops:
        out.append(o)
        if o[0] == 'R' and r.random() < 0.4:
            bad = g.malformed()
            for _ in range(r.randrange(0, 3)):
                bad = r.choice([[gen.I('emit'), bad], [[], bad, 1], [gen.I('lambda'), [gen.I('a')], bad], [gen.I('if'), 1, bad, 2],
                                [gen.I('defun'), gen.I('ff'), [], bad], [gen.I('while'), False, bad], [gen.I('list'), 1, bad]])
            out.append(('X', [[], [gen.I('emit'), 1], bad, [gen.I('emit'), 2]]))
            if r.random() < 0.5:
                out.append(('R',))
    return out


@check('C10')
def c10(chk):
    n = n_for(chk, 1200, 40000)
    s = []
    for i in range(n):
        r = random.Random('C10/%d/%d' % (chk.seed, i))
        g = macros.MacroGen(r, forms=(1, 5))
        ops = [('X', g.macrochunk())]
        while r.random() < 0.35:
            ops += [(o,) for o in r.choices(('R', 'P', 'G'), (6, 2, 1))] + [('X', g.macrochunk())]
        s.append(run.Session('m%d' % i, ops))
    lang.run_language(chk, s, [DEF, GC_OFTEN, Variant('asan'), Variant('no-optimize'), Variant('portable', comp=400)])
    # one way of using macros at a time, with little room at compile time
    s = []
    for w in macros.WAYS:
        for i in range(n // 15):
            r = random.Random('C10/%s/%d/%d' % (w, chk.seed, i))
            s.append(run.Session('%s%d' % (w, i), [('X', macros.MacroGen(r, forms=(1, 3)).macrochunk({w: 1}, 2))]))
    lang.run_language(chk, s, [Variant('asan', comp=150), Variant('stress-asan', objs=1500, flags='x')])


@check('C11')
def c11(chk):
    quick = chk.tier == 'quick'
    r = random.Random('C11/%d' % chk.seed)
    t = reader.generated(chk, 4, 3 if quick else 6)
    if not quick:
        t += reader.generated(chk, 5, 2)
    t += reader.exhaustive(3 if quick else 4)
    t += reader.random_texts(r, n_for(chk, 30000, 300000))
    t += reader.programs(n_for(chk, 400, 4000), 'C11/%d' % chk.seed)
    reader.judge(chk, t, ['asan', 'inference-asan', 'portable-asan'])
    # whole programs, laid out at random
    lang.run_language(chk, programs(chk, n_for(chk, 400, 8000), stmts=only(strings=2), forms=(2, 5)), [Variant('default', text=sexp.Layout(chk.seed))])


@check('C12')
def c12(chk):
    w = only(fail=2.5, capglobal=3, useglobal=4, callback=1, global_=0, nestclo=1, counter=1)
    w.pop('global_')
    s = sessions(chk, n_for(chk, 1700, 34000), (3, 6), ('R',), edit=break_some, stmts=w, forms=(2, 5))
    lang.run_language(chk, s, [DEF, GC_OFTEN, Variant('asan')])
    # long histories of failures, many levels deep: nothing of them adds up
    s = [run.Session('d%d' % i, gen.Gen(random.Random('C12/d%d/%d' % (chk.seed, i))).failures(45, .6)) for i in range(n_for(chk, 60, 1200))]
    lang.run_language(chk, s, [DEF, Variant('asan')], allow_oom=False)


@check('C13')
def c13(chk):
    w = only(capglobal=4, useglobal=6, setglobal=2, counter=0.5, varcall=1)
    w['global'] = 4
    s = sessions(chk, n_for(chk, 1700, 34000), (3, 7), ('G', 'P'), 0.3, stmts=w, forms=(2, 5), ill=0.0003, undef=0.0003)
    lang.run_language(chk, s, [DEF, GC_OFTEN, Variant('portable')])


def histories(chk, name, n, heap, collect, length=(20, 80), **kw):
    out = []
    for i in range(n):
        r = random.Random('%s/%s/%d/%d' % (chk.prop, name, chk.seed, i))
        out.append(('%s%d' % (name, i), r.choice(heap), collect, api.Gen(r.random(), **kw).history(r.randrange(*length))))
    return out


@check('C14')
def c14(chk):
    quick = chk.tier == 'quick'
    g = api.generated(chk, 4, 3, not quick)
    api.judge(chk, [('asan', g)])
    n = n_for(chk, 1500, 30000)
    api.judge(chk, [(c, histories(chk, c, n, [3000], gc, users=u, wild=w))
                    for c, gc, u, w in (('asan', 0, .05, .2), ('inference-asan', 0, .02, .5), ('portable-asan', 0, .1, .1), ('stress-asan', 3, .1, .2))])


@check('C15')
def c15(chk):
    w = only(callback=8, capglobal=1, useglobal=1, nestclo=1, churn=1)
    s = programs(chk, n_for(chk, 1000, 20000), stmts=w, forms=(2, 6), hostcall=0.5)
    w = dict(w, fail=1.5)
    s += sessions(chk, n_for(chk, 600, 12000), (2, 5), ('R',), stmts=w, forms=(1, 4), hostcall=0.5)
    lang.run_language(chk, s, [DEF, GC_OFTEN, Variant('asan', objs=300)])


@check('C16')
def c16(chk):
    libs.c16(chk, n_for)


@check('C17')
def c17(chk):
    libs.c17(chk, n_for)


@check('C18')
def c18(chk):
    libs.c18(chk, n_for)


@check('C19')
def c19(chk):
    libs.c19(chk, n_for)


@check('C20')
def c20(chk):
    infer.c20(chk, n_for)


# values of every type, as operands
SAMPLES = ['0', '1', '-1', '2', '300', '-70000', '0.0', '1.5', '-2.5', 'true', 'false', '()', '""', '"a"', '"abc"', '(quote a)', '(quote (1 2))',
           '(cons 1 2)', '(vector)', '(vector 1)', '(vector 1 2 3)', '(cdr (vector 1 2 3))', '(lambda () 1)', '(lambda (x) x)',
           '(lambda (&rest x) x)', '(lambda (a b c) a)', '(type-of 1)', '(make-type)', '(make-instance (make-type) 1 (lambda (x) x))',
           '(make-instance (make-type) () ())', '(host-user 1)', '(quote emit)', '(cdr "ab")', '(list (list 1))',
           '(cdr "")', '(car "")', '(cdr "a")', '(cdr (cdr "abc"))', '(cdr (vector 1))', '(car (vector))', '(cdr (vector))', '(set-cdr (vector 1 2 3) ())', '(list ())', '(list 1 2.5)', '(vector 1 ())', '(vector ())', '(list 65 66)', '(vector 65 256)',
           '(cdr (cdr (vector 1 2 3)))', '(substring "abc" 1 1)', '(make-string ())', '(concatenate "" "")', '(make-vector 0 1)']
ONE = ['car', 'cdr', 'null?', 'length', 'not', 'type-of', 'make-string', 'symbol-string', 'composite-value', 'composite-function']
TWO = ['+', '-', '*', '/', '=', '<', '>', 'cons', 'get-vector-element', 'set-car', 'set-cdr', 'concatenate', 'make-vector', 'set-composite-value',
       'set-composite-function']
THREE = ['set-vector-element', 'make-instance', 'substring']


def operand_table(r, n):
    """Every operator on values of every type, the operands read from literals, variables, globals and captured variables."""
    from .sexp import Id as I
    from . import sexp
    v = [sexp.parse(t)[0] for t in SAMPLES]
    k = len(v)
    cells = [(o, (a,)) for o in ONE + ['funcall', 'if', 'while'] for a in range(k)]
    cells += [(o, (a, b)) for o in TWO + ['funcall', 'apply'] for a in range(k) for b in range(k)]
    cells += [(o, tuple(r.randrange(k) for _ in range(3))) for o in THREE for _ in range(900)]
    cells += [('substring', (r.choice([12, 13, 14, 32, 34, 36, 37]), r.choice(range(6)), r.choice(range(6)))) for _ in range(60)]
    r.shuffle(cells)
    if n < len(cells):
        cells = cells[:n]
    out = []
    for i in range(0, len(cells), 6):
        ops = []
        for j, (o, a) in enumerate(cells[i:i + 6]):
            es = [v[x] for x in a]
            form = r.randrange(5)
            pre = []
            if form == 1:
                pre = [[I('var'), I('v%d' % x), e] for x, e in enumerate(es)]
                es = [I('v%d' % x) for x in range(len(es))]
            elif form == 2:
                pre = [[I('global'), I('g%d' % x), e] for x, e in enumerate(es)]
                es = [I('g%d' % x) for x in range(len(es))]
            elif form == 3:
                ps = [I('p%d' % x) for x in range(len(es))]
                c = [I(o)] + ps
                c = [I('if')] + ps + [1, 2] if o == 'if' else [I('while')] + ps + [[I('setq'), ps[0], False]] if o == 'while' else c
                ops.append(('X', [[], [I('emit'), 0], [I('emit'), [I('funcall'), [I('lambda'), ps, c]] + es], [I('emit'), 9]]))
                ops.append(('R',))
                continue
            elif form == 4 and o != 'while':
                pre = [[I('var'), I('v%d' % x), e] for x, e in enumerate(es)]
                es = [I('v%d' % x) for x in range(len(es))]
                c = [I('if')] + es + [1, 2] if o == 'if' else [I(o)] + es
                ops.append(('X', [[]] + pre + [[I('emit'), [I('funcall'), [I('lambda'), [], c]]], [I('emit'), I('v0')]]))
                ops.append(('R',))
                continue
            c = [I('if')] + es + [1, 2] if o == 'if' else [I('while'), es[0], [I('host-fail')]] if o == 'while' else [I(o)] + es
            ops.append(('X', [[]] + pre + [[I('emit'), 0], [I('emit'), c], [I('emit'), 9]]))
            ops.append(('R',))
        out.append(run.Session('t%d' % i, ops))
    return out


@check('C21')
def c21(chk):
    r = random.Random('C21/%d' % chk.seed)
    v = [Variant('asan'), Variant('portable-asan', objs=1200)]
    lang.run_language(chk, operand_table(r, n_for(chk, 7000, 60000)), v + ([Variant('stress-asan', objs=1500, flags='x')] if chk.tier != 'quick' else []))
    v = [Variant('asan'), Variant('stress-asan', objs=1500, flags='x'), Variant('portable-asan', objs=1200)]
    lang.run_language(chk, sessions(chk, n_for(chk, 300, 10000), (2, 5), ('R',), ill=0.2, undef=0.03, forms=(1, 4)), v)
    for j, v in enumerate((Variant('asan'), Variant('inference-asan', flags='I'), Variant('portable-asan'))):
        s = [run.Session('raw%d' % i, raw.session(random.Random('C21/raw%d/%d/%d' % (j, chk.seed, i)), i, 'C21')) for i in range(n_for(chk, 700, 40000))]
        lang.run_language(chk, s, [v])
