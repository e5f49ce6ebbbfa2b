#!/bin/bash
# dev helper: build and run one selection
cd /verif/govc && . ../env.sh && go build -o ../bin/govc . && cd .. && exec timeout ${T:-300} ./bin/govc "$@" -limit ${L:-60s} 2>&1 | cut -c1-${W:-160} | grep -v '^ok' | head -${N:-14}
