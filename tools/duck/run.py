"""Run sessions through a driver binary and collect what was observed."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

ASAN = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1'


RAW = re.compile(r'(X ok|X \d+ [01]|Q ok .*|Q err \d+ [01]|L \d+ \d+|[VvD] .*)$')


class Session:
    """ops: list of ('X', tree) | ('U', text) | ('u', text) | ('R',) | ('G',) | ('P',)"""

    def __init__(self, sid, ops, tags=()):
        self.sid, self.ops, self.tags = sid, ops, tags


def encode(sid, ops, text, run_objs, comp_objs, flags='-'):
    out = [b'S %s %d %d %s\n' % (sid.encode(), run_objs, comp_objs, flags.encode())]
    for o in ops:
        if o[0] in ('X', 'C', 'U', 'u'):
            b = o[1] if isinstance(o[1], bytes) else text(o[1]).encode('latin-1')
            out.append(b'%s %d\n%s\n' % (o[0].encode(), len(b), b))
        else:
            out.append(o[0].encode() + b'\n')
    out.append(b'E\n')
    return b''.join(out)


def run(exe, encoded, timeout=10, workers=4, env=None):
    """encoded: list of (key, bytes).  Returns {key: Run}."""
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = ASAN
    e.pop('DLH_VERBOSE', None)
    if env:
        e.update(env)
    groups = [encoded[i::workers] for i in range(workers)]

    def go(g):
        if not g:
            return b'', b''
        p = subprocess.run([exe, str(timeout)], input=b''.join(x[1] for x in g), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=e)
        return p.stdout, p.stderr

    res = {}
    with ThreadPoolExecutor(workers) as ex:
        for g, (out, err) in zip(groups, ex.map(go, groups)):
            runs = parse(out)
            for (key, _), r in zip(g, runs):
                res[key] = r
            if len(runs) != len(g):
                raise RuntimeError('driver stopped after %d of %d sessions: %s' % (len(runs), len(g), err[-500:]))
    return res


class Run:
    def __init__(self):
        self.lines = []
        self.end = ''
        self.complete = False

    def events(self):
        """The observations the specification speaks about."""
        ev = []
        loose = False
        raw = False
        for l in self.lines:
            k = l[:1]
            if l == 'U<':
                raw = True
            elif l == 'U>':
                raw = False
                loose = True
                ev.append('U')
            elif raw:
                # any outcome will do, as long as it is one
                if not RAW.match(l):
                    ev.append('RAW ' + l)
            elif k == 'X':
                ev.append('X ok' if l == 'X ok' else 'X err')
            elif k in 'Vv':
                ev.append(l)
            elif k == 'Q':
                if l.startswith('Q ok'):
                    ev.append(l)
                else:
                    ev.append('Q err')
                    loose = True
            elif k == 'L':
                if not loose:
                    ev.append('L ' + l.split()[1])
            elif k in 'RP':
                f = l.split()
                ev.append(k if f[1] == '0' and f[2] == '0' else l)
                loose = False
            elif k == 'G':
                ev.append('G' if l == 'G 0' else l)
            elif k in 'I?':
                ev.append(l)
        if self.end != 'ok':
            ev.append('CRASH ' + self.end)
        return ev

    def endless(self):
        """Stopped by the time limit while executing a text outside the specification (which may well run for ever)."""
        last = [l for l in self.lines if l in ('U<', 'U>', 'X ok')][-2:]
        return self.end in ('sig 24', 'sig 14', 'sig 9') and last == ['U<', 'X ok']

    def oom(self):
        """A reported exhaustion of memory (error code 6) somewhere in the run."""
        return any(l.startswith('Q err 6') or l.startswith('X 6') for l in self.lines)


def parse(out):
    runs = []
    cur = None
    for l in out.decode('latin-1').split('\n'):
        if l.startswith('B '):
            cur = Run()
        elif l.startswith('Z ') and cur is not None:
            cur.end = l.split(' ', 2)[2]
            runs.append(cur)
            cur = None
        elif cur is not None and l:
            if l == 'K':
                cur.complete = True
            else:
                cur.lines.append(l)
    return runs
