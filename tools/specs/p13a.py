id="p13-unmap-first"; prop="P13"
needs="an update of a metric between the release of the mapping and the detaching of the metrics in a concurrent stop"
breaks="The update writes to the released mapping, the process dies."
edits=[("client.go","""	c.stop()

	err := c.writer.(*bytewriter.MemoryMappedWriter).Unmap(EraseFileOnStop)
	c.writer = nil
""","""	err := c.writer.(*bytewriter.MemoryMappedWriter).Unmap(EraseFileOnStop)
	c.stop()
	c.writer = nil
""")]
demo='''
package speed_test

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	m, err := speed.NewPCPCounter(0, "m")
	if err != nil {
		t.Fatal(err)
	}
	c.MustRegister(m)
	var stop int32
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				m.Up()
			}
		}()
	}
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
		c.MustStart()
		time.Sleep(time.Microsecond)
		c.MustStop()
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
}
'''
