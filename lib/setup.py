"""Nothing to install: every check builds its own harness. Verifies that the tools are there."""
import os, shutil, sys
ok = all(shutil.which(t) for t in ('g++', 'java', 'mpirun', 'python3')) and os.path.exists('/opt/veriftools/tla/tla2tools.jar')
print('tools present' if ok else 'tools missing')
sys.exit(0 if ok else 1)
