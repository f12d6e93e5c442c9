import os
import sys
import warnings

warnings.simplefilter('ignore')

from mc.common import main

rc = main(sys.argv[1:])
sys.stdout.flush()
os._exit(rc)
