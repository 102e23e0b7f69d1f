#!/bin/bash
# Nothing to install: the checks build the harness from /repo and run TLC from its jar.
# This warms the build cache and shows early when a tool is missing.
set -e
cd "$(dirname "$0")"
java -version 2>&1 | head -1
python3 -c 'import families; print(len(families.PROPERTIES), "properties")'
