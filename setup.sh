#!/bin/sh
# Nothing to build: TLC interprets spec/, python runs harness/. Parse every module once.
cd "$(dirname "$0")/spec" || exit 1
for m in Conform.tla MC_*.tla Gen*.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 \
    || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
mkdir -p ../evidence
