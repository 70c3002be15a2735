#!/usr/bin/env python3
"""Setup: parse every specification and make sure the tools the checks use are here.  Nothing is kept."""
import glob
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
for t in ('gcc', 'java', 'python3'):
    subprocess.run(['which', t], check=True, stdout=subprocess.DEVNULL)
bad = 0
for f in sorted(glob.glob(HERE + '/spec/*.tla')):
    p = subprocess.run(['java', '-cp', JAR, 'tla2sany.SANY', os.path.basename(f)], cwd=HERE + '/spec',
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = p.returncode == 0 and 'error' not in p.stdout.lower()
    print(os.path.basename(f), 'ok' if ok else p.stdout)
    bad += not ok
sys.exit(1 if bad else 0)
