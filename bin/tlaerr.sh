#!/bin/bash
# parses all modules, prints errors only
cd "$(dirname "$0")/../spec"; for m in ${@:-*.tla}; do java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m 2>&1 | grep -v '^Parsing\|^Semantic proc\|^\*\*\*\*\|SANY' | grep . && echo "in $m"; done
