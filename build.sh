#!/bin/bash
# Rebuilds the simulated system from /repo's working tree and the harness
# around it.  Prints the path of the harness binary.  Leaves /repo alone.
set -euo pipefail
V=$(cd "$(dirname "$0")" && pwd)
R=${SPEED_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
export GOCACHE=${GOCACHE:-$V/.build/gocache}
mkdir -p "$V/.build"
key=$( { cd "$R" && find . -name '*.go' ! -name '*_test.go' -not -path './.git/*' -print0 | sort -z | xargs -0 sha256sum; sha256sum go.mod go.sum; cd "$V" && find sim -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum build.sh; go version; } | sha256sum | cut -c1-24)
B="$V/.build/$key"
exec 9>"$V/.build/lock"
flock 9
if [ ! -x "$B/harness" ]; then
	rm -rf "$V/.build/tmp"
	# keep few old builds
	ls -1dt "$V"/.build/*/harness 2>/dev/null | tail -n +6 | while read -r h; do rm -rf "$(dirname "$h")"; done || true
	T="$V/.build/tmp"
	mkdir -p "$T/mod"
	cp "$R/go.mod" "$R/go.sum" "$T/mod/"
	(cd "$V/sim" && go build -o "$T/vrewrite" ./cmd/vrewrite) >&2
	# the mmvdump command is left out only where it cannot be taken along
	for cmds in yes no; do
		rm -rf "$T/out" "$T/harness"
		"$T/vrewrite" -src "$R" -modfile "$T/mod/go.mod" -out "$T/out" -also github.com/HdrHistogram/hdrhistogram-go -commands $cmds >&2 || continue
		cp "$R/go.sum" "$T/build.sum"
		cat > "$T/build.mod" <<EOT
module verif/sim

go 1.21

require (
	github.com/performancecopilot/speed/v4 v4.0.0
	github.com/HdrHistogram/hdrhistogram-go v1.1.0
	github.com/edsrzf/mmap-go v1.0.0
	github.com/pkg/errors v0.9.1
)
replace github.com/performancecopilot/speed/v4 => $T/out/m1
replace github.com/HdrHistogram/hdrhistogram-go => $T/out/m0
replace github.com/edsrzf/mmap-go => $V/sim/shim/mmap
EOT
		tags=
		[ $cmds = yes ] || tags="-tags nocommands"
		(cd "$V/sim" && go build -trimpath $tags -modfile="$T/build.mod" -o "$T/harness" ./harness) >&2 && break
	done
	[ -x "$T/harness" ]
	rm -rf "$B"
	mkdir -p "$B"
	mv "$T/harness" "$B/harness"
	rm -rf "$T"
fi
touch "$B/harness"
echo "$B/harness"
