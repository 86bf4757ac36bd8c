"""setup_cmd: verifies the offline tool chain the checks need; nothing to compile."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
sys.path.insert(0, V)
from mc import boot
boot.reexec_if_needed()
boot.boot()
import numpy, scipy, qinfer
print('ready: python %s numpy %s scipy %s qinfer from %s' % (sys.version.split()[0], numpy.__version__, scipy.__version__, os.path.dirname(qinfer.__file__)))
