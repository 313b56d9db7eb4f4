#!/bin/bash
# build.sh DEST lib|race|cmd : builds a simulation binary from /repo's current working tree.
#   DEST/src   the instrumented scratch module, DEST/bin/{simlib,simrace,simcmd}
set -e
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOTELEMETRY=off
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${VERIF_REPO:-/repo}
dest=$1; kind=$2
mkdir -p "$dest/bin" "$dest/src/zzverif"
src=$dest/src
(cd "$here/tools/instr" && go build -o "$dest/bin/instr" .)
cp "$repo/go.mod" "$repo/go.sum" "$src/"
"$dest/bin/instr" "$repo" "$src" lib
for d in "$here"/sim/*/; do cp -r "$d" "$src/zzverif/"; done
# encoding/gob with the iteration order of maps behind the seam
gob=$src/zzverif/simgob; mkdir -p "$gob/saferio"
root=$(go env GOROOT)
for f in "$root"/src/encoding/gob/*.go; do
  case $f in *_test.go|*/dump.go|*/decgen.go|*/encgen.go|*/debug.go) continue;; esac
  sed -e 's#"internal/saferio"#"github.com/tdewolff/font/zzverif/simgob/saferio"#' \
      -e 's#mi := mv.MapRange()#mi := sortedMapRange(mv)#' "$f" > "$gob/$(basename "$f")"
done
cp "$root/src/internal/saferio/io.go" "$gob/saferio/io.go"
cat > "$gob/zz_sorted.go" <<'G'
package gob

import (
	"reflect"
	"sort"

	"github.com/tdewolff/font/zzverif/simrt"
)

type sortedIter struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
}

func sortedMapRange(m reflect.Value) *sortedIter {
	keys := m.MapKeys()
	sort.SliceStable(keys, func(i, j int) bool { return simrt.CompareValues(keys[i], keys[j]) < 0 })
	return &sortedIter{m, keys, -1}
}
func (it *sortedIter) Next() bool           { it.i++; return it.i < len(it.keys) }
func (it *sortedIter) Key() reflect.Value   { return it.keys[it.i] }
func (it *sortedIter) Value() reflect.Value { return it.m.MapIndex(it.keys[it.i]) }
G
grep -q sortedMapRange "$gob/encode.go"
case $kind in
lib)  cd "$src" && go build -trimpath -o "$dest/bin/simlib" ./zzverif/simlib ;;
race) cd "$src" && go build -trimpath -race -o "$dest/bin/simrace" ./zzverif/simlib ;;
cmd)
  c=$src/cmd/fontcmd; mkdir -p "$c/zzargp"
  cp "$repo/cmd/fontcmd/go.mod" "$repo/cmd/fontcmd/go.sum" "$c/"
  "$dest/bin/instr" "$repo/cmd/fontcmd" "$c" cmd
  argp=$(cd "$c" && go list -f '{{.Dir}}' github.com/tdewolff/argp)
  for f in "$argp"/*.go; do
    case $f in *_test.go) continue;; esac
    sed -e 's#^\t"os"$#\tos "github.com/tdewolff/font/zzverif/simos"#' \
        -e 's#^\t"fmt"$#\tfmt "github.com/tdewolff/font/zzverif/simfmt"#' "$f" > "$c/zzargp/$(basename "$f")"
  done
  sed -i 's#"github.com/tdewolff/font/zzverif/simargp"#"github.com/tdewolff/font/cmd/fontcmd/zzargp"#' "$c"/*.go
  mkdir -p "$c"
  cp "$src/zzverif/simcmdmain/zz_main.go.txt" "$c/zz_main.go"
  cd "$c" && go build -trimpath -o "$dest/bin/simcmd" . ;;
*) echo "unknown kind $kind" >&2; exit 2 ;;
esac
