#!/usr/bin/env python3
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pydv.framework import main
if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    r = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(r)
