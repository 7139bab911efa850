#!/bin/bash
# tools/try_bug.sh <id> [property...]   tries seeded/<id> in a scratch copy of /repo (default: its own property's check)
here="$(cd "$(dirname "$0")/.." && pwd)"
id="$1"; shift
S=/tmp/pb; export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_DEBUG=line-tables-only
mkdir -p $S
[ -d $S/repo ] || cp -a /repo $S/repo
cd $S/repo && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
b="$here/seeded/$id"
prop=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
if [ -z "$SKIP_CLEAN" ]; then
  timeout 300 bash $b/demo.sh >$S/demo0.log 2>&1; echo "demo clean: $?"
fi
git apply $b/patch.diff || exit 1
CARGO_TARGET_DIR=$S/repo/target cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >$S/test.log 2>&1; echo "tests: $? $(grep -c '^test .*ok$' $S/test.log) ok"
timeout 300 bash $b/demo.sh >$S/demo1.log 2>&1; echo "demo patched: $? $(tail -1 $S/demo1.log | cut -c1-200)"
bin=$(KSIM_REPO=$S/repo KSIM_BUILD=$S/build bash $here/harness/build.sh | tail -1)
mkdir -p $S/v; cp $here/known_findings.txt $S/v/
for p in ${@:-$prop}; do
  $bin check $p --verif $S/v > $S/check-$p.log 2>&1; echo "check $p: $? $(grep 'violation found' $S/check-$p.log | cut -c1-300)"
done
git checkout -q -- .
