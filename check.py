#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]   (see mcfw.py)"""
import sys
import mcfw
try:
    rc = mcfw.main()
except mcfw.CheckError as ex:
    print("check error: %s" % ex, file=sys.stderr)
    rc = 2
sys.exit(rc)
