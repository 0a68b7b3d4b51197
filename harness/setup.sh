#!/bin/bash
# Compiles the TLC module override once; checks compile their own copy again.
set -e
cd "$(dirname "$0")/.."
mkdir -p build/classes
javac -cp /opt/veriftools/tla/tla2tools.jar -d build/classes java/Dec.java
cd spec
for f in *.tla; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > ../build/sany.log || { cat ../build/sany.log; exit 1; }
done
echo "specification parsed"
