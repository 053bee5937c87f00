#!/bin/bash
# builds the MIR front end (rustc driver); every check builds it itself when it is missing
set -e
cd "$(dirname "$0")/.."
python3 -c "import sys; sys.path.insert(0,'ct'); import fw; print(fw.build_driver())"
