#!/bin/bash
# The specifications parse; the checks build what they need from /repo themselves.
set -e
cd "$(dirname "$0")/spec"
for m in *.tla; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/sany.$$ || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
    rm -f /tmp/sany.$$
done
mkdir -p ../evidence
