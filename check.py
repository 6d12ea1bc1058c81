#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]: decide one property on /repo's working tree"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.run import main  # noqa: E402

sys.exit(main())
