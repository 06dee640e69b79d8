#!/usr/bin/env python3
"""Nothing is prebuilt: every check recompiles from /repo's working tree.  Verifies the toolchain is there."""
import shutil, sys
missing = [t for t in ('g++-9',) if not shutil.which(t)]
if missing: print('missing', missing); sys.exit(1)
print('ok')
