"""Nothing is shared between runs: every check builds what it needs from /repo. This only
verifies that the toolchain is there."""
import shutil, sys
missing = [x for x in ('g++', 'tlc', 'java', 'python3') if not shutil.which(x)]
print('missing: ' + ', '.join(missing) if missing else 'toolchain present')
sys.exit(1 if missing else 0)
