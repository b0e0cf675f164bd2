#!/usr/bin/env python3
"""python3 run.py ID...: decides the properties on /repo's current source."""
import sys
sys.dont_write_bytecode = True
from dsa import main
sys.exit(main.main(sys.argv[1:]))
