#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are there (nothing to build)."""
import shutil, sys, os
bad = [t for t in ('clang', 'gcc', 'why3', 'z3', 'z3-new', 'cvc5') if not shutil.which(t)]
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
if bad:
    print('missing tools: ' + ' '.join(bad)); sys.exit(1)
print('tools present')
