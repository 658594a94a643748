id="p11-stop-unlocked-check"; prop="P11"
needs="two concurrent stops of an active client, the second one checking before the first one is done"
breaks="The second stop does not fail but stops what is stopped already (and crashes)."
edits=[("client.go","""func (c *PCPClient) Stop() error {
	c.mutex.Lock()
	defer c.mutex.Unlock()

	if c.writer == nil {
		return errors.New("trying to stop an already stopped mapping")
	}

	c.stop()
""","""func (c *PCPClient) Stop() error {
	if c.writer == nil {
		return errors.New("trying to stop an already stopped mapping")
	}

	c.mutex.Lock()
	defer c.mutex.Unlock()

	c.stop()
""")]
demo='''
package speed_test

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
		c.MustStart()
		var n int32
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if c.Stop() == nil {
					atomic.AddInt32(&n, 1)
				}
			}()
		}
		wg.Wait()
		if n != 1 {
			t.Fatalf("%d of 4 stops succeed", n)
		}
	}
}
'''
