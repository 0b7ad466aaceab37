#!/usr/bin/env python3-vt
"""check.py <property-id>: run one property's static analysis"""
import importlib
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
import framework
pid = sys.argv[1]
if len(sys.argv) > 2: os.environ['VERIF_TIER'] = sys.argv[2]
mod = importlib.import_module(pid.lower())
sys.exit(framework.main(pid, mod.run))
