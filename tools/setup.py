#!/usr/bin/env python3
"""Verify that the installed tools the checks need are present (nothing is installed or downloaded)."""
import shutil, sys
miss = [t for t in ('clang++', 'opt', 'llvm-extract', 'c++filt', 'z3-new', 'z3', 'cvc5') if not shutil.which(t)]
print('missing: ' + ' '.join(miss) if miss else 'all tools present')
sys.exit(1 if miss else 0)
