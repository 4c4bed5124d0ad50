#!/usr/bin/env python3
"""Nothing to install: checks that the tools the analysis reads the sources with are present."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import build, ir
for t in ('clang', 'opt', 'llvm-link'):
    p = build.tool(t)
    if not os.path.exists(p):
        sys.exit('missing ' + t)
ir.lib()
print('ok')
