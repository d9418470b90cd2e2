#!/bin/bash
# check.sh PROPERTY quick|thorough   or   check.sh replay FILE
exec python3 "$(dirname "$0")/tools/check.py" "$@"
