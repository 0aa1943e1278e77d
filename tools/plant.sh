#!/bin/bash
# plant.sh ID [check [PROP...]]: try the planted bug seeded/ID in a scratch copy mounted over /repo:
# does it build, pass the tests and fail its demo; with "check", what do the checks say about it.
id=$1; mode=$2; shift 2; [ -f /verif/seeded/$id/patch.diff ] || { echo "no $id"; exit 2; }
exec unshare -m bash -c '
id=$1; mode=$2; shift 2; w=/tmp/pl/$id; rm -rf "/tmp/pl/$id"; mkdir -p $w
cp -a /repo $w/repo; mkdir $w/verif; (cd /verif; cp -a check.py engine harness tools known_findings.txt properties.jsonl MANIFEST.json $w/verif/; mkdir -p $w/verif/out $w/verif/evidence; cp -a seeded/$id $w/demo)
mount --bind $w/repo /repo; mount --bind $w/verif /verif; cd /repo; git checkout -q -- . 
if [ "$mode" != check ]; then
bash /opt/vp/build.sh >$w/build0.log 2>&1; timeout 300 bash $w/demo/demo.sh >$w/demo0.log 2>&1; d0=$?
git apply $w/demo/patch.diff || { echo "$id: DOES NOT APPLY"; umount /repo /verif; rm -rf "$w"; exit 1; }
bash /opt/vp/test.sh $w/o.json >$w/test.log 2>&1; r=$(python3 -c "
import json; o=json.load(open(\"$w/o.json\")); b=json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]; print(len([x for x in b if x in o[\"passed\"]]),[x for x in b if x not in o[\"passed\"]])")
timeout 300 bash $w/demo/demo.sh >$w/demo1.log 2>&1; d1=$?
echo "$id: tests $r demo $d0 -> $d1 $(tail -c 150 $w/demo1.log | tr "\n" " ")"; [ $d0 = 0 ] || tail -3 $w/demo0.log
else
git apply $w/demo/patch.diff; cd /verif; [ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open(\"$w/demo/meta.json\"))[\"property\"])")
for p in "$@"; do timeout 900 python3 check.py --property $p --tier ${TIER:-quick} >$w/check.$p.log 2>&1; r=$?; echo "$id: $p exit $r $(grep -m1 VIOLATION $w/check.$p.log) | $(tail -1 $w/check.$p.log | cut -c1-150)"; cp $w/check.$p.log /tmp/pl/$id.$p.log; done
fi
cd /; umount /repo /verif; rm -rf "$w"' plant "$id" "$mode" "$@"
