#!/bin/bash
# Nothing to build: parse every specification once, so that a broken toolchain shows early.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cd specs && java -cp "$J" tla2sany.SANY *.tla > ../evidence/sany.log 2>&1 || { tail -20 ../evidence/sany.log; exit 1; }
