#!/bin/bash
# [V=ROOT] mkseed.sh NAME PROPERTY: makes ROOT/seeded/NAME from /tmp/seed/NAME/{main.rs,patch.diff,needs,breaks}
set -e
n=$1; p=$2; s=/tmp/seed/$n; V=${V:-/verif}; d=$V/seeded/$n
mkdir -p $d; rm -rf "$d/ws" "$d/demo"
mkdir -p $d/ws
cp -r $V/harness/stubs $V/harness/crates $V/harness/Cargo.lock $d/ws/
sed 's/members = .*/members = ["stubs\/*", "crates\/*", "demo"]/; /^\[profile/,$d' $V/harness/Cargo.toml > $d/ws/Cargo.toml
cp $V/tools/demo_template/demo.sh $d/demo.sh
cp -r $V/tools/demo_template/demo $d/demo
cp $s/main.rs $d/demo/src/main.rs
[ -f $s/deps ] && cat $s/deps >> $d/demo/Cargo.toml
cp $s/patch.diff $d/patch.diff
python3 - "$p" $s $d <<'P'
import json,sys
p,s,d=sys.argv[1:]
json.dump({"property":p,"needs":open(s+'/needs').read().strip(),"what_it_breaks":open(s+'/breaks').read().strip()},open(d+'/meta.json','w'),indent=1)
P
