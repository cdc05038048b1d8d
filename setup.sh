#!/bin/sh
# Nothing to install: every check builds what it needs from /repo. Only make sure the tools are there.
set -e
for t in /usr/bin/g++ /usr/bin/python3 /opt/veriftools/pyvenv/bin/python3; do
  [ -x "$t" ] || { echo "missing $t"; exit 1; }
done
/usr/bin/python3 -c 'import yaml, jinja2'
mkdir -p .build evidence
echo ok
