#!/bin/bash
# catchcopy.sh DIR [ID...]: like catch.sh, in a private copy of /verif and /repo under DIR (kept for the next time).
D=$1; shift
mkdir -p $D/repo $D/verif $D/log
rsync -a --delete --exclude target/ /repo/ $D/repo/ 2>/dev/null || { rm -rf "$D/repo"; cp -a /repo $D/repo; }
mkdir -p $D/verif/target
for f in check.py KNOWN_FINDINGS.txt tools harness; do rm -rf "$D/verif/$f"; cp -a /verif/$f $D/verif/; done
for t in ${VARIANTS:-dev rel}; do [ -d $D/verif/target/$t ] || cp -a /verif/target/$t $D/verif/target/; done
sed -i "s#^REPO = .*#REPO = \"$D/repo\"#; s#renv = {k: env\[k\] for k in (\"HOME\", \"PATH\")}#&; renv[\"MONITOR_REPO\"] = REPO#" $D/verif/check.py
sed -i "s#path = \"/repo\"#path = \"$D/repo\"#" $D/verif/harness/Cargo.toml
cd /verif/seeded
[ $# -eq 0 ] && set -- *
cd $D/verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C $D/repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  python3 check.py $p > $D/log/$id.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -m1 -E '^  [a-z-]+: ' $D/log/$id.log | cut -c1-160)"
  git -C $D/repo checkout -q -- .
done
