#!/bin/bash
# make_fixtures.sh: writes harness/cmd/serverw/fixtures, data directories that servers of the first version
# ("base") and of the present one ("now") leave behind. Builds the servers from worktrees, those for
# fixtures with snapshots with a lower threshold for them. Not part of any check.
set -e
w=$(mktemp -d /tmp/fixtures.XXXXXX)
trap 'rm -rf "$w"' EXIT
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly PATH=/opt/veriftools/go1.27.3/bin:$PATH
here=$(cd "$(dirname "$0")/.." && pwd)
out=$here/harness/cmd/serverw/fixtures
(cd "$here/harness" && go build -tags verif -o "$w/serverw" ./cmd/serverw)
make() { # version rev seed...
  rm -rf "$w/tree"; mkdir "$w/tree"; git -C /repo archive "$2" | tar -x -C "$w/tree"
  sed -n 's/^\/\/go:embed //p' "$w/tree/cmd/server/main.go" | tr ' ' '\n' | while read -r p; do
    f="$w/tree/cmd/server/${p/\*/empty.js}"; mkdir -p "$(dirname "$f")"; [ -e "$f" ] || echo '<html></html>' > "$f"
  done
  (cd "$w/tree" && go build -o "$w/doq" ./cmd/server)
  sed -i 's/config.SnapshotInterval = .*/config.SnapshotInterval = 2 * time.Second/; s/config.SnapshotThreshold = .*/config.SnapshotThreshold = 1/' "$w/tree/pkg/raft/node.go"
  (cd "$w/tree" && go build -o "$w/doq-snapshots" ./cmd/server)
  k=$3
  for kind in log kill zstd snapshot; do
    mkdir -p "$w/scratch"; s=$w/doq; [ $kind = snapshot ] && s=$w/doq-snapshots
    for x in 1 2; do
      k=$((k+1)); [ $x$kind = 2zstd ] && continue
      FIXTURE=$1-$kind-$x FIXTURE_OUT=$out DOQ_SERVER=$s VERIF_SCRATCH=$w/scratch "$w/serverw" -mode fixture -seed $k
    done
  done
}
make base "$(git -C /repo rev-list --max-parents=0 HEAD)" 100
make now HEAD 200
ls -l "$out"
