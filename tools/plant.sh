#!/bin/bash
# plant.sh ID...: confirms planted bugs in scratch copies of /repo: each must apply, build, pass the
# stable tests and fail its demonstration, which must pass without it.
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
mkdir -p /tmp/plant
for id in "$@"; do
  d=/verif/seeded/$id
  w=$(mktemp -d /tmp/plant/$id.XXXXXX)
  cp -a /repo/. "$w/"
  cp -a "$d" "$w.demo"; rm -f "$w.demo"/*.diff "$w.demo"/meta.json
  (
    cd "$w" || exit
    git checkout -q -- . ; git clean -fdq
    bash "$w.demo/demo.sh" >"$w.clean.log" 2>&1; c=$?
    git apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; exit; }
    go build ./pkg/... >"$w.build.log" 2>&1; b=$?
    bash "$w.demo/demo.sh" >"$w.bug.log" 2>&1; p=$?
    t=-
    if [ -z "$NOTEST" ]; then
      export TMPDIR=$(mktemp -d /tmp/doq-test.XXXXXX)
      (flock 9; rm -rf /tmp/badger /tmp/badger[0-9] /tmp/badger[0-9][0-9]
      go test -json -vet=off -count=1 -timeout 10m ./pkg/... > "$w.test.json" 2>/dev/null
      rm -rf /tmp/badger /tmp/badger[0-9] /tmp/badger[0-9][0-9]) 9>/tmp/plant/lock
      rm -rf "$TMPDIR"
      t=$(python3 - "$w.test.json" <<'P'
import json,sys
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except ValueError: continue
    if e.get('Test') and e.get('Action')=='pass': ok.add(e['Package']+'/'+e['Test'])
print(','.join(s.split('/')[-1] for s in json.load(open('/opt/vp/BASELINE.json'))['stable'] if s not in ok) or 'pass')
P
)
    fi
    v=BAD; [ $c = 0 ] && [ $b = 0 ] && [ $p != 0 ] && { [ "$t" = pass ] || [ "$t" = - ]; } && v=ok
    echo "$id: $v clean=$c build=$b demo-with-bug=$p tests=$t"
    [ $v = ok ] || { tail -15 "$w.clean.log"; tail -5 "$w.build.log"; tail -15 "$w.bug.log"; }
  )
  rm -rf "$w" "$w.demo" "$w".*.log "$w".test.json
done
