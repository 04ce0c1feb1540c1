#!/usr/bin/env python3
"""run_check.py <property> [--thorough] | <property> --replay FILE"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import monitor
sys.exit(monitor.main(sys.argv))
