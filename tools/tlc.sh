#!/bin/bash
# tlc.sh MODULE [CFG]: model-check a specification by hand, terse output
cd "$(dirname "$0")/../spec"; CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
CP=$CP:$(ls -d ../build/cls-* 2>/dev/null | head -1); m=$(mktemp -d)
java -XX:+UseParallelGC -XX:TieredStopAtLevel=1 -cp $CP tlc2.TLC -workers 8 -metadir $m -noGenerateSpecTE -config ${2:-$1}.cfg $1.tla 2>&1 | egrep -v "^(Loading|TLC2 V|Running|Parsing|Semantic proc|Starting|Computed|Progress|Linting|Computing|Implied|SANY|Warning: Please|\(Use the)" | cut -c1-400 | head -${3:-60}
rm -rf "$m"
