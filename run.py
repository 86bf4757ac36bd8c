#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import boot
boot.reexec_if_needed()
from mc import core
if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(core.main(sys.argv[1:]))
