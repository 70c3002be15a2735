"""S-expressions: the programs handed both to the real compiler (as text) and to the specification (as a node table)."""
from fractions import Fraction


class Id(str):
    pass


class Cb(str):
    """A name written #x."""


class Lit(list):
    """A form written #(...)."""


class S(bytes):
    """A duck-lisp string literal."""


class F:
    """A dyadic float literal m * 2**e."""

    def __init__(self, m, e=0):
        self.m, self.e = m, e

    def text(self):
        fr = Fraction(self.m) * (Fraction(2) ** self.e)
        neg = fr < 0
        fr = abs(fr)
        whole = fr.numerator // fr.denominator
        rest = fr - whole
        digits = ''
        while rest:
            rest *= 10
            d = rest.numerator // rest.denominator
            digits += str(d)
            rest -= d
        return ('-' if neg else '') + str(whole) + '.' + (digits or '0')


class Pad:
    """k consecutive declarations of variables nothing refers to: one dead literal to the specification."""

    def __init__(self, k, name):
        self.k, self.name = k, name


def q(x):
    return [Id('quote'), x]


def text(x):
    if isinstance(x, bool):
        return 'true' if x else 'false'
    if isinstance(x, Id):
        return str(x)
    if isinstance(x, Cb):
        return '#' + x
    if isinstance(x, int):
        return str(x)
    if isinstance(x, F):
        return x.text()
    if isinstance(x, Pad):
        return ' '.join('(var %s%d 0)' % (x.name, i) for i in range(x.k))
    if isinstance(x, S):
        out = '"'
        for c in x:
            if c == 34:
                out += '\\"'
            elif c == 92:
                out += '\\\\'
            elif c == 10:
                out += '\\n'
            else:
                out += chr(c)
        return out + '"'
    if isinstance(x, (list, tuple)):
        return ('#(' if isinstance(x, Lit) else '(') + ' '.join(text(y) for y in x) + ')'
    raise TypeError(repr(x))


class Layout:
    """Writes a program with random layout and comments between its tokens."""

    GAPS = ['', ' ', '\n', '\t', '  ', ';c\n', '; ( " \r', '\x00', '\x01 ']

    def __init__(self, seed):
        import random
        self.r = random.Random('layout/%s' % seed)

    def __call__(self, x):
        out = self.gap()
        for a, b in zip([''] + self.tokens(x), self.tokens(x) + ['']):
            if a:
                out += a
                g = self.gap()
                if not g and b not in ('', '(', ')', '#(') and a not in ('(', ')', '#(') and a[-1] != '"' and b[0] != '"':
                    g = ' '
                out += g
        return out

    def gap(self):
        return self.r.choice(self.GAPS) if self.r.random() < 0.4 else ''

    def tokens(self, x):
        if isinstance(x, (list, tuple)):
            return ['#(' if isinstance(x, Lit) else '('] + [t for y in x for t in self.tokens(y)] + [')']
        return [text(x)]


def parse(src):
    """A small reader for programs written down in this directory (not the oracle for the reader)."""
    i = 0
    n = len(src)

    def skip():
        nonlocal i
        while i < n:
            if src[i].isspace():
                i += 1
            elif src[i] == ';':
                while i < n and src[i] != '\n':
                    i += 1
            else:
                return

    def one():
        nonlocal i
        skip()
        c = src[i]
        if c == '(' or src[i:i + 2] == '#(':
            out = [] if c == '(' else Lit()
            i += 1 if c == '(' else 2
            while True:
                skip()
                if src[i] == ')':
                    i += 1
                    return out
                out.append(one())
        if c == '"':
            i += 1
            b = bytearray()
            while src[i] != '"':
                if src[i] == '\\':
                    i += 1
                    b.append(10 if src[i] == 'n' else ord(src[i]))
                else:
                    b.append(ord(src[i]))
                i += 1
            i += 1
            return S(bytes(b))
        j = i
        while i < n and not src[i].isspace() and src[i] not in '()':
            i += 1
        t = src[j:i]
        if not t:
            raise ValueError('unexpected ' + c)
        if t == 'true':
            return True
        if t == 'false':
            return False
        try:
            return int(t)
        except ValueError:
            pass
        try:
            f = Fraction(t)
            e = 0
            while f.denominator != 1:
                f *= 2
                e -= 1
            return F(int(f), e)
        except ValueError:
            return Cb(t[1:]) if t[0] == '#' and len(t) > 1 else Id(t)

    out = []
    skip()
    while i < n:
        out.append(one())
        skip()
    return out


class Table:
    """Node table of a session, as the specification reads it."""

    def __init__(self, marks=False):
        self.nodes = []
        self.names = {}
        self.marks = marks      # whether nodes say that they were written with a #

    def add(self, x):
        if isinstance(x, bool):
            r = {'k': 'bool', 'v': x}
        elif isinstance(x, (Id, Cb)):
            r = {'k': 'id', 'v': str(x)}
            self.names[str(x)] = [b for b in str(x).encode()]
        elif isinstance(x, int):
            r = {'k': 'int', 'v': x}
        elif isinstance(x, F):
            r = {'k': 'flt', 'v': x.m, 'e': x.e}
        elif isinstance(x, Pad):
            r = {'k': 'int', 'v': 0}
        elif isinstance(x, S):
            r = {'k': 'str', 'v': list(x)}
        else:
            r = {'k': 'list', 'c': [self.add(y) for y in x]}
        if self.marks and r['k'] in ('id', 'list'):
            r['q'] = isinstance(x, (Cb, Lit))
        self.nodes.append(r)
        return len(self.nodes)
