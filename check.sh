#!/bin/bash
# check.sh PROPERTY [quick|thorough] [run.py options]
exec /usr/bin/python3 "$(dirname "$0")/lib/run.py" "$@"
