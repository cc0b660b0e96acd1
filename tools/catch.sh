#!/bin/bash
# catch.sh ID|PATCH [PROPERTY...]: runs checks (by default the one of the bug's property) against a copy of
# /repo with a planted bug, which is put in the place of /repo (and a copy of /verif in that of /verif) in a
# mount and network namespace of its own: nothing else sees it, and several can run at the same time.
id=$1; shift
d=/verif/seeded/$id
patch=$d/patch.diff; [ -f "$id" ] && patch=$(readlink -f "$id") && id=$(basename "$id")
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
w=$(mktemp -d /tmp/catch.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo" && cp -a /verif "$w/verif" || exit 2
git -C "$w/repo" checkout -q -- . && git -C "$w/repo" apply "$patch" || exit 2
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
for p in $props; do
  s=$(date +%s)
  out=$(unshare -m -n bash -c "ip link set lo up; mount --bind $w/repo /repo; mount --bind $w/verif /verif; cd /verif; python3 check.py $p" 2>&1); rc=$?
  echo "$id $p exit=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -c "^VIOLATION") $(echo "$out" | grep -v '^KNOWN' | head -2 | cut -c1-300 | tr '\n' '|')"
done
