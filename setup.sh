#!/bin/bash
# Nothing has to be built: the specification is checked by TLC as it is.  Make sure that the tools are there.
set -e
cd "$(dirname "$0")"
test -f /opt/veriftools/tla/tla2tools.jar
java -version 2>/dev/null
python3 -c 'import sys; assert sys.version_info >= (3, 8)'
mkdir -p evidence
# every module of the specification parses
cd spec
for f in MC_*.tla T_*.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >/tmp/verif-sany.$$ 2>&1 || { cat /tmp/verif-sany.$$; rm -f /tmp/verif-sany.$$; exit 1; }
done
rm -f /tmp/verif-sany.$$
