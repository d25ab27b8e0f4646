#!/bin/bash
# Offline set-up: build the extensions of /repo and parse every specification.
cd "$(dirname "$0")" || exit 2
bash /opt/vp/build.sh >/dev/null 2>&1 || exit 1
tmp=$(mktemp -d) && cp spec/*.tla "$tmp" && cd "$tmp" || exit 1
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > sany.log 2>&1 || { cat sany.log; exit 1; }
done
rm -r "$tmp"
echo "setup ok"
