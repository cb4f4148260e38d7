#!/usr/bin/env python3
"""setup_cmd: warms nothing that a check needs to survive; it verifies that the tools are there and the code builds."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
b = vf.build()
r = subprocess.run([os.path.join(b, 'jsish'), '-e', 'puts(1+1);'], stdout=subprocess.PIPE)
assert r.stdout.strip() == b'2', r
subprocess.run(['java', '-version'], check=True)
print('setup ok')
