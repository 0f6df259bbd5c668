#!/bin/bash
# nothing to build: checks that the installed tools the checks use are there
set -e
command -v clang++ >/dev/null || command -v clang++-18 >/dev/null
command -v g++ >/dev/null
command -v python3-vt >/dev/null
python3-vt -c 'import z3'
echo ok
