#!/bin/sh
# Builds every harness from /repo's current tree (content addressed; checks rebuild when sources change).
cd "$(dirname "$0")" && exec python3 lib/setup.py
