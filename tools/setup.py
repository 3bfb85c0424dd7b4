#!/usr/bin/env python3
"""Checks the tools the harnesses need. Every check builds what it needs from /repo's working tree itself."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ('clang', 'clang++', 'gcc', 'g++', 'ar'):
    if not shutil.which(t):
        print('missing tool', t)
        sys.exit(1)
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
print('ok')
