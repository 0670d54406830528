#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its compiled code (see DESIGN.md).

  check.py C02 [--tier quick|thorough]     exit 0 held, 1 VIOLATION, 2 no answer
  check.py --replay replay/C02-....json    run a reported counterexample on the compiled code
  check.py --setup                         build the engine and the replay runner
"""
import sys
sys.dont_write_bytecode = True
import os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vflib"))
import driver
driver.main()
