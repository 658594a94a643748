id="p01-generation-before-wait"; prop="P01"
needs="a reader (or the death of the process) between the writing of the second generation number and the end of the writers of the descriptors and values"
breaks="The file is marked as complete as soon as the toc is written, while instance domains, metrics and values are still being written."
edits=[("client.go","""	var wg sync.WaitGroup
	wg.Add(2)

	go func() {
		c.writeTocBlock()
		wg.Done()
	}()
""","""	var wg, twg sync.WaitGroup
	twg.Add(1)
	wg.Add(1)

	go func() {
		c.writeTocBlock()
		twg.Done()
	}()
"""),("client.go","""	gen, g2off := <-genc, <-g2offc
	wg.Wait()

	// must *always* be the last thing to happen
	_ = c.writer.MustWriteInt64(gen, g2off)
""","""	gen, g2off := <-genc, <-g2offc
	twg.Wait()

	// must *always* be the last thing to happen
	_ = c.writer.MustWriteInt64(gen, g2off)
	wg.Wait()
""")]
demo='''
package speed_test

import (
	"encoding/binary"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sync/atomic"
	"testing"
	"time"

	speed "github.com/performancecopilot/speed/v4"
)

// whoever finds a file that is marked as complete finds all of its metrics
func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 400; i++ {
		m, err := speed.NewPCPCounter(7, fmt.Sprintf("m.%d", i))
		if err != nil {
			t.Fatal(err)
		}
		c.MustRegister(m)
	}
	loc := filepath.Join(os.TempDir(), "mmv", "demo")
	var stop, bad int32
	done := make(chan bool)
	for g := 0; g < 3; g++ {
		go func() {
			for atomic.LoadInt32(&stop) == 0 {
				b, err := ioutil.ReadFile(loc)
				if err != nil || len(b) < 72 {
					continue
				}
				g1, g2 := binary.LittleEndian.Uint64(b[8:]), binary.LittleEndian.Uint64(b[16:])
				if g1 != g2 || g1 == 0 {
					continue
				}
				for i := 0; i < 400; i++ {
					if b[72+104*i] == 0 {
						atomic.StoreInt32(&bad, 1)
					}
				}
			}
			done <- true
		}()
	}
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end) && atomic.LoadInt32(&bad) == 0; {
		c.MustStart()
		c.MustStop()
	}
	atomic.StoreInt32(&stop, 1)
	for g := 0; g < 3; g++ {
		<-done
	}
	if bad != 0 {
		t.Fatal("a file that is marked as complete lacks metrics")
	}
}
'''
