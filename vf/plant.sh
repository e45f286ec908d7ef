#!/bin/bash
# Confirm planted bugs in a private copy of /repo (development tool; no check uses it).
# usage: plant.sh ID...   prints per plant: demo-clean build tests demo-bug check
mkdir -p /tmp/plant
[ -d /tmp/plant/repo ] || cp -a /repo /tmp/plant/repo
git -C /tmp/plant/repo fetch -q /repo HEAD && git -C /tmp/plant/repo reset -q --hard FETCH_HEAD
export IDS="$*"
unshare -Urm bash -c '
mount --bind /tmp/plant/repo /repo || exit 9
cd /repo
bash /opt/vp/build.sh >/tmp/plant/build0.log 2>&1 || { echo "clean build failed"; exit 9; }
for id in $IDS; do
  S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open(\"$S/meta.json\"))[\"property\"])"); C=/tmp/plant/demo_$id; mkdir -p $C; cp $S/demo* $C/
  bash $C/demo.sh >/tmp/plant/$id.d0 2>&1; d0=$?
  git apply $S/patch.diff || { echo "$id patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/plant/$id.build 2>&1; b=$?
  bash $C/demo.sh >/tmp/plant/$id.d1 2>&1; d1=$?
  t=skip; if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/plant/$id.json >/tmp/plant/$id.test 2>&1; t=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"));r=json.load(open(\"/tmp/plant/$id.json\"))
s=set(b[\"stable\"])-set(r[\"passed\"]);print(len(s),*sorted(s)[:3])"); fi
  VERIF_TIER=quick VERIF_SEED=1 VF_EVIDENCE=/tmp/plant/ev python3 /verif/check.py $P >/tmp/plant/$id.check 2>&1; c=$?
  v=$(grep -c "^VIOLATION property=$P" /tmp/plant/$id.check)
  echo "$id [$P] demo-clean=$d0 build=$b demo-bug=$d1 tests-missing=$t check=$c viol=$v $(grep -o "^  \[[^]]*\]" /tmp/plant/$id.check | head -3 | tr -d "\n")"
  sed -i "/^$id|/d" /verif/vf/plant_results.txt 2>/dev/null; r=missed; [ "$c$v" != "00" ] && [ $v -gt 0 ] && r=caught; echo "$id|$r: $P $(grep -o "^  \[[^]]*\]" /tmp/plant/$id.check | sort -u | head -4 | tr -d "\n" | sed "s/|/ /g")" >> /verif/vf/plant_results.txt
  git checkout -q -- . ; rm -rf $C
done
bash /opt/vp/build.sh >/tmp/plant/build0.log 2>&1
'
