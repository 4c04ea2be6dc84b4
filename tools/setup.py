#!/usr/bin/env python3
"""Warms the build caches and checks that the tools answer; every check also builds what it needs by itself."""
import os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, 'tools'))
os.makedirs(os.path.join(V, 'work'), exist_ok=True)
import check
k, out, _ = check.build_kit()
print('kit', k or out[-500:])
print(subprocess.run(['verus', '--version'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()[:200])
sys.exit(0)
