#!/bin/bash
# lseed.sh ID ["PROPS"|all]: like seed.sh, but everything in scratch copies
# (/tmp/sc/repo, /tmp/sc/v), so that /repo stays as it is meanwhile.
id=$1; s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
S=/tmp/sc/repo
mkdir -p /tmp/sc/v; rsync -a --exclude target --exclude .lock /verif/harness /verif/check /verif/KNOWN_FINDINGS /tmp/sc/v/ 2>/dev/null || cp -ru /verif/harness/src /verif/harness/Cargo.* /tmp/sc/v/harness/
sed -i 's#"/repo"#"/tmp/sc/repo"#' /tmp/sc/v/harness/Cargo.toml
bash /verif/tools/seed.sh $id nocheck
git -C $S checkout -q -- . ; git -C $S apply $s/patch.diff || exit 1
cd /tmp/sc/v
qs=${2:-$p}; [ "$qs" = all ] && qs=$(seq -f C%02g 1 27)
for q in $qs; do
a=$(date +%s); VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 ./check $q > /tmp/sc/c 2>&1; r=$?
echo "   check $q: exit $r $(( $(date +%s)-a ))s $(grep -a VIOLATION /tmp/sc/c | head -1)"
done
git -C $S checkout -q -- .
