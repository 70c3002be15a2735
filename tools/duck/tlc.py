"""Run TLC and read its verdict lines."""
import os
import re
import subprocess
import tempfile
import time
from . import build

JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(build.HERE, 'spec')


class TLCError(Exception):
    pass


def run(module, cfg=None, env=None, workers=8, mem='6g', timeout=800, extra=(), props=()):
    """Returns (stdout, stats)."""
    meta = tempfile.mkdtemp(prefix='tlc.', dir=build.scratch())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss256m',
           *props, '-cp', JAR, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', cfg or module + '.cfg', *extra, module]
    t = time.time()
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode(errors='replace')
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    stats = {'generated': int(m.group(1)) if m else 0, 'distinct': int(m.group(2)) if m else 0,
             'rc': p.returncode, 'wall': time.time() - t}
    subprocess.run(['rm', '-rf', meta])
    return out, stats


def verdicts(out):
    v, expect = {}, {}
    for l in out.split('\n'):
        m = re.match(r'^"@@V (\S+) (\S+)(.*)"$', l)
        if m:
            if m.group(1) in v:
                raise TLCError('two verdicts for ' + m.group(1))
            v[m.group(1)] = (m.group(2), m.group(3).split())
        m = re.match(r'^"@@E (\S+) (.*)"$', l)
        if m:
            expect[m.group(1)] = m.group(2).replace('\\"', '"').split('|')[:-1]
    return v, expect
