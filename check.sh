#!/bin/bash
# check.sh ID [--replay FILE]
exec python3 "$(dirname "$(readlink -f "$0")")/check.py" "$@"
