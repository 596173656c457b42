#!/bin/sh
# nothing to install: check that the tools the checks use are here
set -e
command -v python3 java gcc g++ cmake ninja >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
echo ready
