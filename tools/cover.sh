#!/bin/bash
# cover.sh TIME PROP...: which statements of the library the checks execute
# (coverage of the instrumented copy, in which every statement of the original
# keeps its function).  Prints the functions that are not completely covered.
set -e
V=$(cd "$(dirname "$0")/.." && pwd); R=${SPEED_REPO:-/repo}; T=$(mktemp -d /tmp/cover.XXXX); 
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off GOCACHE=${GOCACHE:-$V/.build/gocache}
trap 'rm -rf "$T"' EXIT
t=$1; shift
mkdir -p "$T/mod" "$T/cov"; cp "$R/go.mod" "$R/go.sum" "$T/mod/"
(cd "$V/sim" && go build -o "$T/vrewrite" ./cmd/vrewrite)
"$T/vrewrite" -src "$R" -modfile "$T/mod/go.mod" -out "$T/out" -also github.com/HdrHistogram/hdrhistogram-go
cp "$R/go.sum" "$T/build.sum"
cat > "$T/build.mod" <<EOT
module verif/sim

go 1.21

require (
	github.com/performancecopilot/speed/v4 v4.0.0
	github.com/HdrHistogram/hdrhistogram-go v1.1.0
	github.com/edsrzf/mmap-go v1.0.0
	github.com/pkg/errors v0.9.1
)
replace github.com/performancecopilot/speed/v4 => $T/out/m1
replace github.com/HdrHistogram/hdrhistogram-go => $T/out/m0
replace github.com/edsrzf/mmap-go => $V/sim/shim/mmap
EOT
(cd "$V/sim" && go build -trimpath -cover -coverpkg=./...,github.com/performancecopilot/speed/v4/... -modfile="$T/build.mod" -o "$T/harness" ./harness)
for p in "$@"; do
	GOCOVERDIR=$T/cov "$T/harness" -prop "$p" -seed 1 -time "$t" -evidence "$T/ev" -replays "$T/rp" | tail -1 >&2
done
cd "$V/sim" && go tool covdata textfmt -i="$T/cov" -o="$T/c.txt"
cp "$T/c.txt" /tmp/cover.txt; rm -rf /tmp/cover.src; cp -a "$T/out/m1" /tmp/cover.src
go tool covdata func -i="$T/cov" | grep performancecopilot | grep -v "100.0%" | grep -v "vsimVar\|vsimInit\|_string.go" || true
