#!/bin/bash
# run with cwd = the repository
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
