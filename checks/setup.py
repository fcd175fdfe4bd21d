#!/usr/bin/env python3
"""Nothing has to be built in advance (every check builds what it needs); verifies that the tools are there."""
import shutil, sys, os
bad = [t for t in ('g++', 'java', 'javac') if not shutil.which(t)] + [j for j in ('/opt/veriftools/tla/tla2tools.jar',) if not os.path.exists(j)]
print('missing: %s' % bad if bad else 'ok')
sys.exit(1 if bad else 0)
