#!/bin/sh
# Nothing to build: checks that the tools are there and the modules parse.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
/opt/venv/bin/python -c "import numpy, pandas, scipy"
python3-vt -c "import mpmath"
cd spec
for m in Battery.tla TraceCalls.tla; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
        tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo ok
