#!/bin/bash
# plant.sh ID...   confirm planted bugs in a scratch copy: patch applies to HEAD, tests pass, demo 0/nonzero.
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
s=/tmp/plant-scratch
mkdir -p $s
if [ ! -d $s/repo ]; then git clone -q /repo $s/repo; cp /repo/Cargo.lock $s/repo/; fi
git -C $s/repo fetch -q && git -C $s/repo reset -q --hard origin/HEAD
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never
for id in "$@"; do
  d=$here/seeded/$id
  git -C $s/repo checkout -q -- .
  (cd $s/repo && bash $d/demo.sh >/tmp/plant.$id.clean 2>&1); a=$?
  if ! git -C $s/repo apply $d/patch.diff; then echo "$id: patch does not apply"; continue; fi
  (cd $s/repo && bash $d/demo.sh >/tmp/plant.$id.bug 2>&1); b=$?
  t=skipped
  if [ -z "${NOTEST:-}" ]; then
  (cd $s/repo && cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 >/tmp/plant.$id.test 2>&1); t=$?
  fi
  fails=$(grep -c "^test .*FAILED" /tmp/plant.$id.test)
  echo "$id: demo clean=$a bug=$b tests rc=$t failed=$fails $( [ $a = 0 ] && [ $b != 0 ] && [ $b != 2 ] && [ "$t" = 0 ] && echo OK || echo BAD)"
  git -C $s/repo checkout -q -- .
done
