#!/bin/bash
# try.sh ID [CHECK] [tier args...]
id=$1; c=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")}
shift; shift
w=/tmp/plant/w/try-$id; rm -rf $w; cp -a /repo $w; git -C $w apply /verif/seeded/$id/patch.diff || exit 9
cd /verif; PBT_REPO=$w ./run.sh $c "$@" > /tmp/plant/try-$id-$c.out 2>&1; rc=$?
echo "$id $c rc=$rc $(grep -m1 VIOLATION /tmp/plant/try-$id-$c.out)"
rm -rf $w
