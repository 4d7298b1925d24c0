#!/bin/sh
# check ID [tier]
cd "$(dirname "$0")" && exec /opt/veriftools/pyvenv/bin/python vf/main.py "$@"
