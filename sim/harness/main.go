// Command harness runs the checks: it explores seeded executions of the
// library under the simulator and decides the properties on them.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	budget := flag.Duration("time", 20*time.Second, "time to explore")
	minCases := flag.Int("min", 400, "smallest number of cases")
	workers := flag.Int("workers", 8, "worker processes")
	evidence := flag.String("evidence", "", "evidence file")
	replays := flag.String("replays", "replays", "directory of replay files")
	worker := flag.String("worker", "", "internal: I/N/beat file")
	from := flag.Int("from", 0, "internal: first case")
	replay := flag.String("replay", "", "run a replay file")
	mini := flag.String("minimize", "", "internal: minimize a replay file")
	out := flag.String("out", "", "internal: result file")
	one := flag.Int("one", -1, "run one case and print it")
	hashes := flag.Int("hashes", 0, "print the trace hashes of the first N cases")
	verbose := flag.Bool("v", false, "verbose")
	list := flag.Bool("list", false, "list the properties")
	flag.Parse()

	if *list {
		var l []string
		for id := range props {
			l = append(l, id)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
		return
	}
	if *replay != "" {
		os.Exit(doReplay(*replay, *verbose))
	}
	if *mini != "" {
		limitMemory()
		r, err := readReplay(*mini)
		if err != nil {
			fatal("%v", err)
		}
		q := minimize(r, *budget)
		if q == nil {
			fatal("does not reproduce")
		}
		if err := q.write(*out); err != nil {
			fatal("%v", err)
		}
		return
	}
	if props[*prop] == nil {
		fatal("unknown property %q", *prop)
	}
	if *prop == "P24" && commandMain == nil {
		fatal("the mmvdump command could not be built in")
	}
	if *one >= 0 {
		c := makeCase(*prop, *seed, *one)
		o := runCase(c)
		b, _ := json.MarshalIndent(c, "", " ")
		fmt.Printf("%s\n", b)
		for _, l := range history(o.x) {
			fmt.Println(l)
		}
		fmt.Printf("verdict %+v early %q unclear %d oracle error %q\nstats %+v\n", o.v, o.early, o.unclear, o.oracleErr, *o.x.w.Stats())
		return
	}
	if *hashes > 0 {
		for i := 0; i < *hashes; i++ {
			o := runCase(makeCase(*prop, *seed, i))
			fmt.Printf("%d %016x %016x %d %q\n", i, o.x.w.TraceHash(), o.x.w.SchedHash(), o.x.w.Stats().SimNanos, o.v.Class+o.early)
		}
		return
	}
	if *worker != "" {
		f := strings.SplitN(*worker, "/", 3)
		i, _ := strconv.Atoi(f[0])
		n, _ := strconv.Atoi(f[1])
		doWorker(*prop, *seed, *from, i, n, f[2], *budget, *minCases)
		return
	}
	co := &coord{prop: *prop, tier: *tier, seed: *seed, budget: *budget, min: *minCases, n: *workers, evidence: *evidence, replays: *replays, verbose: *verbose}
	os.Exit(co.run())
}

func doReplay(path string, verbose bool) int {
	limitMemory()
	r, err := readReplay(path)
	if err != nil {
		fatal("%v", err)
	}
	t := time.AfterFunc(60*time.Second, func() {
		if hasWord(props[r.Property].classes, "hang") {
			fmt.Printf("the execution does not end\nVIOLATION property=%s replay=%s\n", r.Property, path)
			os.Exit(1)
		}
		fatal("the execution does not end")
	})
	o := runCase(r.Case)
	t.Stop()
	if verbose {
		for _, l := range history(o.x) {
			fmt.Println(l)
		}
	}
	h := fmt.Sprintf("%016x", o.x.w.TraceHash())
	if o.v.Class == "" {
		fmt.Printf("property %s holds on this execution (trace %s, recorded %s)\n", r.Property, h, r.TraceHash)
		return 0
	}
	same := "same execution as recorded"
	if h != r.TraceHash {
		same = "the code differs from the code it was recorded on"
	}
	fmt.Printf("%s: %s\ntrace %s: %s\nVIOLATION property=%s replay=%s\n", o.v.Class, o.v.Msg, h, same, r.Property, path)
	return 1
}
