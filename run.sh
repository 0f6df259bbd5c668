#!/bin/bash
# run.sh <property> [quick|thorough] [entry-prefix]
cd "$(dirname "$0")" && exec python3-vt engine/check.py "$@"
