#!/usr/bin/env python3
"""Warm the build caches; every check also builds what it needs by itself."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc'))
import decide, extract
decide.build_rt(print)
extract.extract('gfm')
print('setup done')
