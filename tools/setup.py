#!/usr/bin/env python3
"""Build the IR extractor and extract /repo's current IR once (checks rebuild it whenever the sources differ)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
import frontend
P = frontend.load()
print('functions in the program model: %d' % len(P.fns))
