#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--n N]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rv import env
env.ensure()
from rv import core
sys.exit(core.main(sys.argv))
