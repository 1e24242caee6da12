#!/bin/bash
# Nothing is compiled: the specifications are interpreted by TLC, the drivers by Python. Parse every specification once.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
for f in spec/*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" > /tmp/vk-sany.$$ 2>&1) || { cat /tmp/vk-sany.$$; rm -f /tmp/vk-sany.$$; exit 1; }
  rm -f /tmp/vk-sany.$$
done
echo "setup ok"
