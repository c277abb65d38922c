#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property of atheler/klang from the sources in /repo."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from klint.core import main

sys.exit(main(sys.argv))
