#!/usr/bin/env python3
"""setup_cmd: nothing has to be built.  Checks that the tools the checks need
are here and that the reference models agree with published vectors and with
the Java platform (mc/selftest.py)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/mc')
import run
sys.exit(subprocess.call(run.JAVA + ['-B', '-Dpython.cachedir.skip=true', V + '/mc/selftest.py'], stdin=subprocess.DEVNULL))
