#!/usr/bin/env python3
"""Nothing has to be built beforehand: every check builds from /repo. This only sees that the tools are there."""
import shutil, sys
missing = [t for t in ('tlc', 'cmake', 'ninja', 'gcc', 'openssl') if not shutil.which(t)]
if missing:
    sys.exit('missing: ' + ' '.join(missing))
