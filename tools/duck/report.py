"""Evidence files, violation lines, known findings."""
import json
import os
import re
import sys
import time
from . import build

EVID = os.path.join(build.HERE, 'evidence')


class Check:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.violations = []
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        self.known = [k for k in known() if k['property'] == prop]

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def stats(self, st):
        self.add('states', st['distinct'])
        self.add('transitions', st['generated'])

    def sample(self, x):
        if len(self.cov['samples']) < 3:
            self.cov['samples'].append(x)

    def note(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    def violation(self, name, data):
        path = os.path.join(EVID, 'replay', '%s-%s.json' % (self.prop, name))
        with open(path, 'w') as f:
            json.dump(data, f, indent=1)
        self.violations.append(path)
        if len(self.violations) <= 5:
            print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)

    def known_finding(self, what):
        print('KNOWN-FINDING: property=%s %s' % (self.prop, what), flush=True)

    def finish(self):
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
                       'coverage': self.cov, 'assumptions': self.assumptions,
                       'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}, f, indent=1)
        self.note('done:', {k: v for k, v in self.cov.items() if not isinstance(v, (list, str))})
        return 1 if self.violations else 0


def known():
    """Open entries of the known-findings file: [{'property', 'key', 'what'}]."""
    p = os.path.join(build.HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'open: property=(\S+) key=(\S+) (.*)', l)
            if m:
                out.append({'property': m.group(1), 'key': m.group(2), 'what': m.group(3)})
    return out
