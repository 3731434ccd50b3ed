#!/usr/bin/env python3
"""setup_cmd: nothing is compiled; makes sure the interpreter the checks run on is there."""
import os, sys
for p in ('/usr/share/java/jython.jar',):
    if not os.path.exists(p):
        sys.exit('missing %s' % p)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
print('ok')
