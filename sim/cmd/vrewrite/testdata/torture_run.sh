#!/bin/bash
# Differential self test of the rewriter: original and instrumented copy of
# the torture package must print the same under every schedule.
set -e
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
here=$(cd "$(dirname "$0")" && pwd); sim=$(cd "$here/../../.." && pwd)
d=$(mktemp -d /tmp/torture.XXXXXX); trap "rm -rf $d" EXIT
(cd "$sim" && go build -o $d/vrewrite ./cmd/vrewrite)
cp "$here/torture/go.mod" $d/list.mod
(cd "$here/torture" && $d/vrewrite -src . -modfile $d/list.mod -out $d/out)
mkdir -p $d/native $d/inst
cat > $d/native/go.mod <<EOT
module n
go 1.21
require torture v0.0.0
replace torture => $here/torture
EOT
printf 'package main\nimport ("torture";"fmt")\nfunc main(){ fmt.Print(torture.Run()) }\n' > $d/native/main.go
cat > $d/inst/go.mod <<EOT
module n
go 1.21
require torture v0.0.0
require verif/sim v0.0.0
replace torture => $d/out/m0
replace verif/sim => $sim
EOT
cat > $d/inst/main.go <<'EOT'
package main
import ("torture";"fmt";"os";"verif/sim/vsim";"verif/sim/simfs")
func main(){
	want, _ := os.ReadFile(os.Args[1])
	for seed := uint64(0); seed < 300; seed++ {
		mode := []string{"none","random","pct","sites"}[seed%4]
		w := vsim.NewWorld(vsim.Config{Sched: vsim.Schedule{Mode: mode, Seed: seed, P: 3, Depth: 5, Est: 500, Hot: 3, MapSeed: seed}, MaxSteps: 1000000})
		fs := simfs.New(w)
		var got string
		w.Run(func(){ vsim.ResetPackages(); got = torture.Run() })
		fs.Release()
		if w.Viol != nil || got != string(want) {
			fmt.Println("DIFFERENT seed", seed, mode, w.Viol); fmt.Println(got); os.Exit(1)
		}
	}
	fmt.Println("rewriter self test: 300 schedules agree with the original")
}
EOT
(cd $d/native && go build -o ../n . && ../n > ../want)
(cd $d/inst && go build -o ../i . && ../i ../want)
