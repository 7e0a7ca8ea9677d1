#!/bin/bash
# dev helper: run1.sh UNIT [verus args]
u=$1; shift
/verif/build/target/debug/vx ${REPO:-/repo} /verif/units/$u.rs /verif/build/$u.rs /verif/build/$u.report.json --lock /verif/units/$u.lock.json
python3 - $u <<'P'
import json,sys
for i in json.load(open(f"/verif/build/{sys.argv[1]}.report.json"))["items"]:
    if i["status"]!="ok": print("LOST",i["item"],i.get("reason"))
P
verus /verif/build/$u.rs --crate-type=lib --edition=2024 "$@"
