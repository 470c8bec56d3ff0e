#!/usr/bin/env python3
"""check.py <property id>: run one check (see DESIGN.md)"""
import importlib, os, sys
if os.environ.get('PYTHONHASHSEED') != '0':  # same order of sets on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'analyzer'))
import common
pid = sys.argv[1]
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
mod = importlib.import_module('rules.' + pid.lower())
sys.exit(common.run(pid, mod.check))
