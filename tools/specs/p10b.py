id='p10-unfrozen-too-early'; prop='P10'
needs='a registration between the moment a stopping client gives up its file and the moment it has detached its metrics'
breaks='Stop lifts the freeze before it walks over the registered metrics: a concurrent registration changes the map that is being walked over.'
edits=[('client.go',"""	c.stop()

	err := c.writer.(*bytewriter.MemoryMappedWriter).Unmap(EraseFileOnStop)
	c.writer = nil
	c.r.setMapped(false)
	if err != nil {
""","""	c.r.setMapped(false)
	c.stop()

	err := c.writer.(*bytewriter.MemoryMappedWriter).Unmap(EraseFileOnStop)
	c.writer = nil
	if err != nil {
""")]
race=True
demo=r'''
package speed_test

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 300; i++ {
		m, _ := speed.NewPCPCounter(0, fmt.Sprint("m", i))
		c.MustRegister(m)
	}
	var done int32
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for n := 0; atomic.LoadInt32(&done) == 0 && n < 4000; {
			m, _ := speed.NewPCPCounter(0, fmt.Sprint("x", n))
			if c.Register(m) == nil {
				n++
			}
		}
	}()
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
		c.MustStart()
		c.MustStop()
	}
	atomic.StoreInt32(&done, 1)
	wg.Wait()
}
'''
