#!/bin/sh
# nothing has to be built: Python code under test, TLA+ specifications; parses every specification once
cd "$(dirname "$0")/../spec" || exit 1
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/bgv_sany.$$ 2>&1 || { cat /tmp/bgv_sany.$$; exit 1; }
done
rm -f /tmp/bgv_sany.$$
exit 0
