#!/usr/bin/env python3
"""Nothing to install: confirm that the tools the checks rely on are present."""
import os, shutil, sys
miss = [t for t in ('clang++', 'opt') if not (shutil.which(t) or shutil.which(t + '-18') or os.path.exists('/usr/lib/llvm-18/bin/' + t))]
if miss:
    print('missing tools: ' + ', '.join(miss)); sys.exit(1)
print('ok')
