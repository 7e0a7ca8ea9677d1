#!/bin/bash
# dev helper: rp.sh BIN [args]
b=$1; shift
cd /verif/replay && CARGO_TARGET_DIR=/verif/build/rt RUSTFLAGS="--cfg graphannis_verif -Awarnings" CARGO_INCREMENTAL=0 cargo build --offline --bin $b 2>&1 | grep -E "^error|^  -->|^warning: unused" -A6 | head -60
REPLAY_VERBOSE=1 /verif/build/rt/debug/$b --out /tmp/$b.json "$@" && python3 -c "
import json
d=json.load(open('/tmp/$b.json')); print(d['evaluations'],d['distinct_nontrivial'],d['seconds'],d['per_scenario'], 'FAILURES', len(d['failures']))"
