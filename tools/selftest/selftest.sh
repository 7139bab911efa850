#!/bin/bash
# Self-tests of the simulator (not a registered check).  Works in a scratch folder it removes.
#  1. determinism: runs of every property in other processes, batches and worker counts
#  2. a copy of k which uses many more primitives of std in Chain::from_nodes: no check may alarm
here="$(cd "$(dirname "$0")" && pwd)"; root="$here/../.."
w="$(mktemp -d /tmp/ksim-selftest.XXXXXX)"; trap 'rm -rf "$w"' EXIT
bin="$(bash "$root/harness/build.sh")" || exit 2
"$bin" determinism -n "${1:-300}" | grep differ
git clone -q /repo "$w/repo"
cp "$here/tort.rs" "$w/repo/src/"
sed -i '0,/^mod chain;/s//mod chain;\nmod tort;/' "$w/repo/src/lib.rs"
sed -i '0,/    pub fn from_nodes(nodes: Vec<Node<T>>) -> Chain<T> {/s//&\n        crate::tort::tort(nodes.len());/' "$w/repo/src/chain.rs"
bin="$(KSIM_REPO="$w/repo" KSIM_BUILD="$w/b" bash "$root/harness/build.sh")" || exit 2
mkdir "$w/v"; cp "$root/known_findings.txt" "$w/v/"
for p in 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17; do
  "$bin" check C$p --verif "$w/v" --runs 3000 >"$w/log" 2>&1; echo "other primitives: C$p exit $?"
done
