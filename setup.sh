#!/bin/sh
# Nothing to build: the specifications are interpreted by TLC, the harness by
# /opt/venv/bin/python.  Fails early if a tool is missing or a module does not parse.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
cd spec || exit 1
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > ../out/sany.log 2>&1 || { cat ../out/sany.log; echo "bad module $m"; exit 1; }
done
/opt/venv/bin/python -c 'import jax, waymax' || exit 1
echo setup ok
