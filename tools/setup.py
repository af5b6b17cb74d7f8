#!/usr/bin/env python3
"""Nothing to build: checks that the tools the checks use are there and that the sources parse."""
import glob, os, py_compile, shutil, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = [t for t in ('clang-18', 'clang++-18') if not (shutil.which(t) or shutil.which(t.replace('-18', '')))]
for f in glob.glob(os.path.join(root, 'sa', '**', '*.py'), recursive=True):
    compile(open(f).read(), f, 'exec')
if bad:
    sys.exit('missing: %s' % bad)
print('ready')
