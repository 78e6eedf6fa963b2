"""Sees that what the checks need is here. Nothing is built ahead: every check
builds from /repo's current tree."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ('g++-14', 'valgrind'):
    if not shutil.which(t):
        sys.exit('missing: ' + t)
for f in ('lib/corpus.json', 'lib/ct.json', 'lib/targets.json', 'MANIFEST.json'):
    json.load(open(os.path.join(V, f)))
os.makedirs(V + '/build', exist_ok=True)
os.makedirs(V + '/evidence', exist_ok=True)
subprocess.check_call(['g++-14', '-std=c++23', '-w', '-O0', '-fsyntax-only', '-I' + V + '/cpp', V + '/cpp/checks.cpp'])
print('ready')
