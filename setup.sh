#!/bin/sh
# builds the MIR driver; everything derived from /repo is built by each check itself
cd "$(dirname "$0")" && exec "${VT_PYTHON:-/opt/veriftools/pyvenv/bin/python3}" -c "
import sys; sys.path.insert(0, 'engine/sym')
import os, build
os.makedirs(build.BUILD, exist_ok=True)
print(build.driver())"
