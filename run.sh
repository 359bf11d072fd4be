#!/bin/bash
# run.sh PROPERTY [quick|thorough] : run one check against the current tree of /repo
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /usr/bin/python3 -W ignore rtm/supervise.py "$@"
