#!/bin/bash
# usage: seedtest.sh ID...  validates planted bugs in a scratch copy and runs their property's check
for id in "$@"; do
  s=/verif/seeded/$id; d=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo "$d/repo"
  mkdir "$d/demo"; cp "$s"/* "$d/demo"/; rm -f "$d"/demo/*.diff "$d"/demo/meta.json
  (cd "$d/repo" && bash "$d/demo/demo.sh" >"$d/clean.log" 2>&1); c=$?
  if ! git -C "$d/repo" apply "$s/patch.diff"; then echo "$id: patch does not apply"; rm -rf "$d"; continue; fi
  (cd "$d/repo" && go build ./... && go vet ./pkg/... >/dev/null 2>&1; go test ./... >"$d/test.log" 2>&1); t=$?
  (cd "$d/repo" && bash "$d/demo/demo.sh" >"$d/demo.log" 2>&1); b=$?
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  mkdir "$d/v"; cp /verif/known-findings.txt "$d/v/"
  VERIF_REPO="$d/repo" VERIF_DIR="$d/v" /verif/bin/verifchk "$p" >"$d/chk.log" 2>&1; k=$?
  echo "$id property=$p clean_demo=$c tests=$t bug_demo=$b check=$k $(grep -m1 '^\[' "$d/chk.log" | cut -c1-150)"
  [ $c -ne 0 ] && tail -5 "$d/clean.log"; [ $t -ne 0 ] && grep -E 'FAIL|---' "$d/test.log" | head -5; [ $b -eq 0 ] && tail -3 "$d/demo.log"
  rm -rf "$d"
done
