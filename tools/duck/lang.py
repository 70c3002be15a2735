"""Conformance of the compiler and VM to DuckSem: sessions are generated, run in the real system under several
configurations, and every recorded run is checked by TLC against the abstract machine."""
import json
import os
import random
import time
from . import build, run, sexp, tlc

ASAN = 'asan'


class Variant:
    """A way of running a session."""

    def __init__(self, config, objs=4000, flags='-', comp=2000, text=sexp.text):
        self.config, self.objs, self.flags, self.comp, self.text = config, objs, flags, comp, text

    def name(self):
        return '%s/%d/%s' % (self.config, self.objs, self.flags)


def observe(r):
    """What one run showed, as the specification compares it."""
    if any(l.startswith('Q err 6') or l.startswith('X 6') for l in r.lines):
        cut = [i for i, l in enumerate(r.lines) if l.startswith('Q err 6') or l.startswith('X 6')][0]
        r2 = run.Run()
        r2.lines = r.lines[:cut]
        r2.end = 'ok' if not r.end.startswith('sig') and not r.end.startswith('exit') else r.end
        return {'kind': 'oom', 'ev': r2.events()}
    return {'kind': 'full', 'ev': r.events()}


KEYWORDS = {k + x for k in ('',) for x in '''nop funcall apply var global setq not * / + - while if when unless = < > defun lambda
defmacro noscope comptime quote list vector make-vector get-vector-element set-vector-element cons car cdr set-car set-cdr null?
type-of make-type make-instance composite-value composite-function set-composite-value set-composite-function make-string
concatenate substring length symbol-string symbol-id error declare'''.split()}
COMPILE = {'defmacro', 'comptime', '__defmacro', '__comptime'}


def compiles(t):
    """Does the program have macros or compile-time code, or define functions named like keywords?"""
    if not isinstance(t, list):
        return isinstance(t, (sexp.Id, sexp.Cb)) and str(t) in COMPILE
    if any(str(a) in ('defun', '__defun') and str(b).removeprefix('__') in KEYWORDS for a, b in zip(t, t[1:])
           if isinstance(a, (sexp.Id, sexp.Cb)) and isinstance(b, (sexp.Id, sexp.Cb))):
        return True
    return any(compiles(x) for x in t)


def texts_read(ops):
    """The string literals given to read."""
    def walk(t):
        if isinstance(t, list):
            if len(t) > 1 and isinstance(t[0], sexp.Id) and str(t[0]) == 'read' and isinstance(t[1], sexp.S):
                yield bytes(t[1])
            for x in t:
                yield from walk(x)
    for o in ops:
        if o[0] == 'X':
            yield from walk(o[1])


def record(sid, ops, obs, inferred=False):
    tb = sexp.Table(inferred)
    out = []
    for o in ops:
        if o[0] == 'X':
            out.append({'o': 'X', 'n': tb.add(o[1]), 'm': compiles(o[1])})
        else:
            out.append({'o': o[0].upper(), 'n': 0, 'm': False})
    reads = []
    for src in sorted(set(texts_read(ops))):
        try:
            t = sexp.parse(src.decode('latin-1'))
        except (IndexError, ValueError):
            t = []
        reads.append({'b': list(src), 'n': tb.add(t[0]) if t else 0})
    return {'reads': reads, 'inf': inferred, 'id': sid, 'nodes': tb.nodes or [{'k': 'int', 'v': 0}], 'names': tb.names or {'a': [97]}, 'ops': out, 'obs': obs}


def judge(exes, sessions, variants, allow_oom=True, workers=8, jvm='6g', module='DuckSem', timeout=800):
    """Run and check.  Returns (verdicts {sid: (verdict, variant or None, expected, observed)}, tlc stats, runs)."""
    per = {s.sid: [] for s in sessions}
    nruns = 0
    endless = set()
    for v in variants:
        enc = [(s.sid, run.encode(s.sid, s.ops, v.text, v.objs, v.comp, v.flags)) for s in sessions]
        res = run.run(exes[v.config], enc, workers=workers, timeout=20 if v.config.endswith('asan') else 10)
        nruns += len(res)
        for s in sessions:
            if res[s.sid].endless():
                endless.add(s.sid)
            o = observe(res[s.sid])
            if o['kind'] == 'oom' and not allow_oom:
                o['kind'] = 'full'
                o['ev'] = o['ev'] + ['OUT-OF-MEMORY']
            per[s.sid].append((v, o, res[s.sid]))
    f = os.path.join(build.scratch(), 'in-%d.ndjson' % random.getrandbits(40))
    uniq = {}
    with open(f, 'w') as fh:
        for s in sessions:
            u, idx = [], []
            for v, o, r in per[s.sid]:
                if o not in u:
                    u.append(o)
                    idx.append((v, r))
            uniq[s.sid] = (u, idx)
            fh.write(json.dumps(record(s.sid, s.ops, u, 'i' in variants[0].flags)) + '\n')
    out, st = tlc.run(module, env={'DUCK_IN': f}, mem=jvm, workers=workers, timeout=timeout)
    os.unlink(f)
    v, ex = tlc.verdicts(out)
    if len(v) != len(sessions):
        raise tlc.TLCError('%d verdicts for %d sessions\n%s' % (len(v), len(sessions), err_lines(out)))
    res = {}
    for s in sessions:
        kind, rest = v[s.sid]
        if s.sid in endless:
            res[s.sid] = ('endless', None, None, None, None)
        elif kind == 'bad':
            i = int(rest[1]) - 1
            res[s.sid] = ('bad', uniq[s.sid][1][i][0], ex.get(s.sid), uniq[s.sid][0][i], uniq[s.sid][1][i][1].lines)
        else:
            # a crash is never acceptable, whatever the specification says about the program
            c = [(vv, o, r) for vv, o, r in per[s.sid] if r.end != 'ok' and not timed_out(r)]
            if kind == 'oos' and c:
                res[s.sid] = ('crash', c[0][0], None, c[0][1], c[0][2].lines)
            else:
                res[s.sid] = (kind, None, None, None, None, rest)
    return res, st, nruns


def timed_out(r):
    # killed by the CPU limit or the alarm: a program outside the specification's scope may run forever or recurse without
    # bound
    return r.end in ('sig 24', 'sig 14', 'sig 9')


def show(ops):
    return [o[0] + ' ' + (sexp.text(o[1]) if len(o) > 1 and not isinstance(o[1], bytes) else o[1].decode('latin-1') if len(o) > 1 else '')
            for o in ops]


def shrink_candidates(ops):
    """Sessions one simplification smaller."""
    for i in range(len(ops)):
        if len(ops) > 1:
            yield ops[:i] + ops[i + 1:]
    for i, o in enumerate(ops):
        if o[0] == 'X' and isinstance(o[1], list):
            for t in shrink_tree(o[1]):
                yield ops[:i] + [('X', t)] + ops[i + 1:]


def shrink_tree(t):
    if not isinstance(t, list):
        return
    if len(t) > 6:
        h = len(t) // 2
        yield t[:1] + t[h:]
        yield t[:h]
    for i in range(1, len(t)):
        yield t[:i] + t[i + 1:]
    for i in range(len(t)):
        if isinstance(t[i], list):
            for y in t[i]:
                if isinstance(y, list):
                    yield t[:i] + [y] + t[i + 1:]
    for i in range(len(t)):
        for u in shrink_tree(t[i]):
            yield t[:i] + [u] + t[i + 1:]


def shrink(exes, session, variant, allow_oom, rounds=12, limit=300, seconds=60):
    """Greedy batch shrinking of a violating session (only for the replay file)."""
    best = session.ops
    end = time.time() + seconds
    for _ in range(rounds):
        if time.time() > end:
            break
        c = []
        for o in shrink_candidates(best):
            c.append(run.Session('r%d' % len(c), o))
            if len(c) >= limit:
                break
        if not c:
            break
        try:
            res, _, _ = judge(exes, c, [variant], allow_oom, timeout=30)
        except Exception:
            break
        good = [s for s in c if res[s.sid][0] == 'bad']
        if not good:
            break
        best = min((s.ops for s in good), key=lambda o: len(str(show(o))))
    return best


def run_language(chk, sessions, variants, allow_oom=True, batch=3000, module='DuckSem', nontrivial=None):
    """Judge sessions in batches and record coverage and violations."""
    exes = build.build('dlh', sorted({v.config for v in variants}))
    chk.note('built', sorted(exes))
    tally = {}
    steps = 0
    for i in range(0, len(sessions), batch):
        part = sessions[i:i + batch]
        res, st, nruns = judge(exes, part, variants, allow_oom, module=module)
        chk.stats(st)
        bad = []
        for s in part:
            r = res[s.sid]
            tally[r[0]] = tally.get(r[0], 0) + 1
            if r[0] == 'ok':
                chk.add('traces_validated_against_impl', len(variants))
                steps += int(r[5][0])
                chk.sample({'session': show(s.ops)[:3], 'machine_steps': int(r[5][0])})
            elif r[0] in ('bad', 'crash'):
                bad.append(s)
        chk.note('judged', i + len(part), tally)
        if bad:
            confirm(chk, exes, bad, res, variants, allow_oom, module)
            if chk.violations:
                break
    chk.add('sessions_decided', tally.get('ok', 0))
    chk.add('sessions_out_of_scope', tally.get('oos', 0))
    chk.cov.setdefault('runs_per_session', []).append([v.name() for v in variants])
    chk.add('machine_steps', steps)


def confirm(chk, exes, bad, res, variants, allow_oom, module):
    """A rejection counts only if the session shows it again, run on its own."""
    again, _, _ = judge(exes, bad, variants, allow_oom, module=module)
    n = 0
    for s in bad:
        r = again[s.sid]
        if r[0] not in ('bad', 'crash'):
            chk.note('not reproduced:', s.sid, res[s.sid][:4])
            continue
        n += 1
        if n > 3:
            continue
        small = s.ops
        if n == 1 and r[0] == 'bad' and 'DUCK_NOSHRINK' not in os.environ:
            try:
                small = shrink(exes, s, r[1], allow_oom)
            except Exception as e:          # shrinking is a convenience
                chk.note('shrink failed', e)
        chk.violation(s.sid, {'property': chk.prop, 'kind': r[0], 'variant': r[1].name(), 'session': show(s.ops),
                              'smaller_session': show(small), 'specification_expects': r[2], 'observed': r[3],
                              'driver_lines': r[4]})
    if n:
        chk.note(n, 'sessions rejected')


def err_lines(out):
    i = out.find('Error:')
    return out[i:i + 1500] + '\n...\n' + out[-1500:]
