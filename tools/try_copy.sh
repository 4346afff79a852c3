#!/bin/bash
# try_copy.sh SECS ID...: check planted changes in scratch copies under /tmp/try (does not touch /repo).
secs=$1; shift
mkdir -p /tmp/try/o
[ -d /tmp/try/harness ] || { cp -a /verif/harness /tmp/try/harness; rm -rf /tmp/try/harness/target; }
rsync -a --delete --exclude target /verif/harness/ /tmp/try/harness/ 2>/dev/null || { for p in rsim simrt model; do rm -rf /tmp/try/harness/$p; cp -a /verif/harness/$p /tmp/try/harness/; done; }
sed -i 's#"/repo"#"/tmp/try/repo"#' /tmp/try/harness/rsim/Cargo.toml
for id in "$@"; do
  rm -rf /tmp/try/repo; mkdir /tmp/try/repo; (cd /repo && git archive HEAD) | tar -x -C /tmp/try/repo
  d=/verif/seeded/$id; case "$id" in /*) d=$id; id=$(basename $id);; esac
  prop=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  (cd /tmp/try/repo && patch -s -p1 < $d/patch.diff) || { echo "$id: does not apply"; continue; }
  find /tmp/try/repo -name '*.rs' -exec touch {} +
  (cd /tmp/try/harness && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/try/harness/target RUSTC_WRAPPER=/tmp/try/harness/wrapper.sh cargo build --offline -q 2>/tmp/try/log) || { echo "$id: build"; tail -20 /tmp/try/log; continue; }
  for prop in $prop; do
  t0=$(date +%s)
  RSIM_OUT=/tmp/try/o RSIM_VERIF=/verif /tmp/try/harness/target/debug/rsim check --prop $prop --tier quick --secs $secs --jobs ${JOBS:-8} > /tmp/try/$id.$prop.log 2>&1; rc=$?
  echo "$id $prop rc=$rc $(( $(date +%s) - t0 )) s $(grep -a -m1 -A1 '^VIOLATION' /tmp/try/$id.$prop.log | tail -1 | cut -c1-200)"
  done
done
