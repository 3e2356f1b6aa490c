#!/bin/bash
# seed.sh ID [nocheck] : verifies the planted bug /verif/seeded/ID in a scratch
# copy of /repo, then runs its property's quick check against it.
id=$1; s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
export HOME=/root RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
unset ADAPTON_NO_PURITY ADAPTON_STRUCTURAL ADAPTON_CHECK_DCG ADAPTON_WRITE_DCG ADAPTON_GMLOG_DCG
S=/tmp/sc/repo
if [ ! -d $S ]; then mkdir -p /tmp/sc; cp -a /repo $S; fi
cd $S && git checkout -q -- . && git apply $s/patch.diff || { echo "$id: NOAPPLY"; exit 1; }
timeout 780 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/sc/log 2>&1
python3 /opt/vp/results.py /tmp/sc/o.json cargo:/tmp/sc/log >/dev/null
t=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/sc/o.json'))
m=b-set(o['passed']); print('TESTS-OK' if not m else 'TESTS-FAIL '+str(sorted(m)[:3]))")
bash $s/demo.sh >/tmp/sc/d1 2>&1; d1=$?
git checkout -q -- .
bash $s/demo.sh >/tmp/sc/d0 2>&1; d0=$?
echo "$id [$p]: $t demo clean=$d0 patched=$d1 ($(grep -a 'panicked\|left\|right' /tmp/sc/d1|head -3|tr '\n' ' '))"
[ "$d0" != 0 ] && cat /tmp/sc/d0 | head -20
[ "$2" = nocheck ] && exit
for q in ${2:-$p}; do
git -C /repo apply $s/patch.diff
cd /verif; a=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $q > /tmp/sc/c 2>&1; r=$?
git -C /repo checkout -q -- .
echo "   check $q: exit $r $(( $(date +%s)-a ))s $(grep -a VIOLATION /tmp/sc/c | head -1)"
done
