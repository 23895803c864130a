#!/bin/bash
# Nothing to install: checks that the tools are there and that every specification parses.
cd "$(dirname "$0")/spec" || exit 1
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
[ -x /opt/venv/bin/python ] || { echo "no /opt/venv/bin/python"; exit 1; }
java -cp "$CP" tla2sany.SANY *_Trace.tla *_MC.tla > /tmp/pds-sany.$$ 2>&1
rc=$?
if grep -qE "\*\*\* (Errors|Abort)|Fatal|Could not" /tmp/pds-sany.$$ || [ $rc != 0 ]; then
    tail -30 /tmp/pds-sany.$$; rm -f /tmp/pds-sany.$$; exit 1
fi
rm -f /tmp/pds-sany.$$
mkdir -p ../evidence
echo "specifications parse"
