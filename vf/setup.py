#!/usr/bin/env python3
"""Nothing to build ahead: every check compiles /repo's current sources itself.  Verifies the tools are there."""
import shutil, sys
missing = [t for t in ('cbmc', 'goto-cc', 'goto-instrument', 'gcc', 'clang') if not shutil.which(t)]
print('tools ok' if not missing else 'missing: ' + ' '.join(missing))
sys.exit(1 if missing else 0)
