#!/bin/bash
# detect_copy.sh <seed id>...|ALL : like detect.sh, but on scratch copies (/tmp/ds) of /repo's HEAD and of
# this folder, so that /repo itself is not touched. PROPS="C01 C02" overrides the properties checked.
D=/tmp/ds
mkdir -p $D
[ -d $D/repo ] || git clone -q /repo $D/repo
git -C $D/repo checkout -q -f && git -C $D/repo clean -qfd src && git -C $D/repo fetch -q /repo HEAD && git -C $D/repo reset -q --hard FETCH_HEAD
[ -f /repo/Cargo.lock ] && cp /repo/Cargo.lock $D/repo/
mkdir -p $D/verif
rsync -a --delete --exclude target --exclude .git --exclude seeded /verif/ $D/verif/ 2>/dev/null || { cp -a /verif/sim /verif/build.sh /verif/check.sh /verif/known-findings.txt $D/verif/; }
[ -d $D/verif/target ] || cp -a /verif/target $D/verif/target
sed -i "s#path = \"/repo\"#path = \"$D/repo\"#" $D/verif/sim/Cargo.toml
sed -i "s#cd /repo#cd $D/repo#" $D/verif/build.sh
[ "$1" = ALL ] && set -- $(ls /verif/seeded)
for i in "$@"; do
  d=/verif/seeded/$i
  p=${PROPS:-$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")}
  git -C $D/repo apply $d/patch.diff || { echo "$i: does not apply"; continue; }
  for q in $p; do
    t=$(date +%s)
    bash $D/verif/check.sh $q > /tmp/detect.$i.log 2>&1
    rc=$?
    echo "$i $q rc=$rc $(( $(date +%s) - t ))s $(grep -m1 '^VIOLATION' /tmp/detect.$i.log) :: $(grep -m1 -v '^seed' /tmp/detect.$i.log | cut -c1-200)"
  done
  git -C $D/repo checkout -q -- .
done
