#!/usr/bin/env python3
"""Checks that what the checks need is here. Every check builds its own harness from /repo."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from check import GOROOT, go_env
from checks import CHECKS
missing = [f for c in CHECKS.values() for p in c['parts'] for f in p['files'] if not os.path.exists(os.path.join(V, 'harness', f))]
if missing:
    sys.exit('missing: %s' % missing)
sys.exit(subprocess.run([GOROOT + '/bin/go', 'version'], env=go_env(False)).returncode)
