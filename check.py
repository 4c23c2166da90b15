#!/usr/bin/env python3
"""Static checks of the properties in properties.jsonl.  Usage: check.py --property P01 [--tier quick|thorough]"""
import sys
import os
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import driver
sys.exit(driver.main(sys.argv[1:]))
