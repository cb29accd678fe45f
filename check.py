#!/usr/bin/env python3
"""check.py <PROPERTY-ID>: decide one property from the sources in /repo."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from pyabs import lab  # noqa

if __name__ == '__main__':
    pid = sys.argv[1]
    m = importlib.import_module('checks.' + pid.lower())
    sys.exit(lab.main(pid, m.check))
