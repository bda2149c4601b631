#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'           # the interpreter the package is installed for
if os.path.exists(VENV) and not os.environ.get('DSIM_PARENT'):
    os.environ['DSIM_PARENT'] = '1'
    os.execv(VENV, [VENV, '-B', '-W', 'ignore', os.path.join(HERE, 'run.py')] + sys.argv[1:])
sys.path.insert(0, HERE)
from simlib import frame
sys.exit(frame.main())
