"""Build the harness drivers from /repo's current working tree."""
import glob
import hashlib
import os
import subprocess
import tempfile
import atexit
import shutil

REPO = os.environ.get('DUCK_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

CONFIGS = {
    'default': ['-DUSE_STDLIB'],
    'inference': ['-DUSE_STDLIB', '-DUSE_PARENTHESIS_INFERENCE'],
    'portable': ['-DUSE_DUCKLIB_MALLOC'],
    'no-optimize': ['-DUSE_STDLIB', '-DNO_OPTIMIZE_JUMPS', '-DNO_OPTIMIZE_PUSHPOPS'],
    'portable-asan': ['-DUSE_DUCKLIB_MALLOC', '-fsanitize=address', '-fno-omit-frame-pointer'],
    'inference-asan': ['-DUSE_STDLIB', '-DUSE_PARENTHESIS_INFERENCE', '-fsanitize=address', '-fno-omit-frame-pointer'],
    'stress': ['-DUSE_STDLIB', '-DDUCK_VERIFY'],
    'stress-asan': ['-DUSE_STDLIB', '-DDUCK_VERIFY', '-fsanitize=address', '-fno-omit-frame-pointer'],
    'asan': ['-DUSE_STDLIB', '-fsanitize=address', '-fno-omit-frame-pointer'],
}

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='duckverif.')
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


class BuildError(Exception):
    pass


def build(driver, configs, link=()):
    """Compile harness/<driver>.c with all library sources, one binary per configuration.  Returns {config: path}."""
    srcs = sorted(glob.glob(REPO + '/*.c') + glob.glob(REPO + '/DuckLib/*.c'))
    out = {}
    jobs = []
    for c in configs:
        d = os.path.join(scratch(), 'b-' + c)
        os.makedirs(d, exist_ok=True)
        objs = []
        for s in srcs + [os.path.join(HERE, 'harness', driver + '.c')]:
            o = os.path.join(d, hashlib.md5(s.encode()).hexdigest()[:8] + '-' + os.path.basename(s) + '.o')
            objs.append(o)
            if not os.path.exists(o):
                cmd = ['gcc', '-std=gnu99', '-g1', '-O1', '-w', *CONFIGS[c], '-I' + REPO, '-I' + REPO + '/DuckLib',
                       '-c', s, '-o', o]
                jobs.append(cmd)
        out[c] = (os.path.join(d, driver), objs)
    run_all(jobs)
    links = []
    for c in configs:
        exe, objs = out[c]
        links.append(['gcc', *CONFIGS[c], '-o', exe, *objs, '-lm', *link])
    run_all(links)
    return {c: out[c][0] for c in configs}


def run_all(cmds, par=8):
    pend = list(cmds)
    live = []
    while pend or live:
        while pend and len(live) < par:
            c = pend.pop(0)
            live.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        c, p = live.pop(0)
        outp, _ = p.communicate()
        if p.returncode:
            raise BuildError(' '.join(c) + '\n' + outp.decode(errors='replace')[-4000:])
