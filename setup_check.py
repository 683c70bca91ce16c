#!/usr/bin/env python3-vt
"""offline sanity check of the toolchain the framework needs; builds nothing persistent"""
import subprocess, shutil, sys
for t in ('clang++', 'opt', 'g++', 'c++filt', 'z3-new', 'cvc5'):
    if shutil.which(t) is None: print('missing tool', t); sys.exit(1)
import z3
print('setup ok: z3', z3.get_version_string())
