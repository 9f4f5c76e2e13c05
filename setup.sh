#!/bin/sh
# The checks compile what they need from /repo's working tree themselves; this only shows that the tools are there.
set -e
cd "$(dirname "$0")"
t=$(mktemp -d)
gcc -O2 -shared -fPIC -o "$t/simclock.so" native/simclock.c -ldl
rm -r "$t"
/opt/venv/bin/python -c "import syncany, sqlglot" 
echo ready
