#!/bin/bash
# usage: build.sh OUTDIR
# Rewrites the current tree of /repo (and its connection library) onto the
# simulator and builds the harness against it: OUTDIR/harness.
# Exit 2: it could not be built (no answer about any property).
set -u
export HOME="${HOME:-/root}"
export PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
# size-specialised allocation, compiled into uninstrumented code, would skip the
# race detector's reset of reused memory
export CGO_ENABLED=1 GOFLAGS=-mod=mod GOEXPERIMENT=nosizespecializedmalloc
unset GOPATH_EXTRA GORACE
out=$1
here=$(cd "$(dirname "$0")" && pwd)
repo=${SIM_REPO:-/repo}
fail() { echo "build: $*" >&2; exit 2; }
( cd "$here/rewriter" && GOFLAGS= go build -o "$out/rewriter" . ) || fail "rewriter"
"$out/rewriter" -repo "$repo" -out "$out/gen" || fail "rewriting"
link=github.com/funny/link
{ sed -e 's/^go 1\..*$/go 1.21/' "$repo/go.mod"; } > "$out/gen/main/go.mod"
printf 'module %s\n\ngo 1.21\n' $link > "$out/gen/link/go.mod"
mkdir -p "$out/h"
cp "$here"/harness/*.go "$out/h/"
{
  echo 'module harness'
  echo
  echo 'go 1.24'
  echo
  echo 'require ('
  echo '	gitee.com/coco/go808 v0.0.0'
  echo '	gosim v0.0.0'
  sed -n '/^require (/,/^)/p' "$repo/go.mod" | sed -e '1d'
  echo
  echo 'replace gitee.com/coco/go808 => ../gen/main'
  echo "replace $link => ../gen/link"
  echo "replace gosim => $here/rt"
} > "$out/h/go.mod"
cp "$repo/go.sum" "$out/h/go.sum"
for m in main link; do
  echo 'require gosim v0.0.0' >> "$out/gen/$m/go.mod"
  echo "replace gosim => $here/rt" >> "$out/gen/$m/go.mod"
done
root=$(go env GOROOT)
printf '{"Replace": {"%s/src/sync/pool.go": "%s/pool/pool.go"}}\n' "$root" "$here" > "$out/ov.json"
flags=()
for p in core snet sos stime ssync smisc; do flags+=("-gcflags=gosim/$p=-race=false -l"); done
cd "$out/h" && go build -race -trimpath -overlay "$out/ov.json" "${flags[@]}" "-gcflags=harness=-race=false -l" -o "$out/harness" . || fail "harness"
