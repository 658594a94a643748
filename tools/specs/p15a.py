id="p15-shared-hash"; prop="P15"
needs="two goroutines make metrics (or instance domains or clients) at the same time, one of them resets the shared hash between the writing and the reading of the other"
breaks="Metrics, instance domains or clients get identifiers that depend on what other goroutines do."
edits=[("speed.go","""func hash(s string, b uint32) uint32 {
	h := fnv.New32a()
""","""func hash(s string, b uint32) uint32 {
	h := hasher
	h.Reset()
"""),("speed.go","""// generate a unique hash for""","""// hasher is shared, making one for each name is wasteful
var hasher = fnv.New32a()

// generate a unique hash for""")]
demo='''
package speed_test

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	d, err := speed.NewPCPInstanceDomain("some.name", nil)
	if err != nil {
		t.Fatal(err)
	}
	var bad int32
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 100000; i++ {
				if g%2 == 0 {
					if e, _ := speed.NewPCPInstanceDomain("some.name", nil); e.ID() != d.ID() {
						atomic.StoreInt32(&bad, 1)
					}
				} else {
					_, _ = speed.NewPCPInstanceDomain(fmt.Sprint("other", g), nil)
				}
			}
		}(g)
	}
	wg.Wait()
	if bad != 0 {
		t.Fatal("one name gets several identifiers")
	}
}
'''
