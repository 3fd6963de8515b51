#!/bin/sh
# Builds the harness against /repo, with and without the hook, and checks that the specification parses.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
cd harness
CARGO_TARGET_DIR=../build/conf cargo build --offline --quiet
RUSTFLAGS="--cfg dbml_verif" CARGO_TARGET_DIR=../build/relq cargo build --offline --quiet
cd ../spec
for m in Conform RelTrace CallsTrace FormsTrace Scopes; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla > ../build/sany.log 2>&1 || { cat ../build/sany.log; exit 1; }
done
