#!/usr/bin/env python3
"""usage: check.py <property> [--tier quick|thorough] [--seed N] [--keep]; see check_lib.py"""
import sys, check_lib
sys.exit(check_lib.main())
