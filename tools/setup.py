#!/usr/bin/env python3
"""Nothing to install: checks build what they need. Verifies that the toolchain is there."""
import shutil, sys
missing = [t for t in ('clang++', 'g++', 'python3') if not shutil.which(t)]
if missing:
    print('missing tools:', missing)
    sys.exit(1)
