#!/usr/bin/env python3
"""Checks that the toolchains the checks need are there (every check builds what it needs itself)."""
import subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib
ok = True
for cmd in (['java', '-version'], ['go', 'version']):
    p = subprocess.run(cmd, env=vlib.goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ok &= p.returncode == 0
    print(p.stdout.decode(errors='replace').splitlines()[0])
sys.exit(0 if ok else 1)
