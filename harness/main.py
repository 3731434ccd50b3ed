import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from java.lang import System, Throwable
import engine
import traceback
rc = 0
try:
    engine.main(sys.argv[1:])
except SystemExit, e:
    sys.stderr.write('%s\n' % e)
    rc = 2
except (Exception, Throwable), e:
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.stderr.flush()
System.exit(rc)
