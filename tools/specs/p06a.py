id="p06-set-check-then-act"; prop="P06"
needs="two concurrent updates of one counter, one of them between the check and the setting of the other"
breaks="The counter goes back: the check that the new value is not smaller is not atomic with the setting."
edits=[("metrics.go","""func (c *PCPCounter) Set(val int64) error {
	c.mutex.Lock()
	defer c.mutex.Unlock()

	v := c.val.(int64)

	if val < v {
		return errors.Errorf("cannot set counter to %v, current value is %v and PCP counters cannot go backwards", val, v)
	}

	return c.set(val)
""","""func (c *PCPCounter) Set(val int64) error {
	v := c.Val()

	if val < v {
		return errors.Errorf("cannot set counter to %v, current value is %v and PCP counters cannot go backwards", val, v)
	}

	c.mutex.Lock()
	defer c.mutex.Unlock()

	return c.set(val)
""")]
demo='''
package speed_test

import (
	"sync"
	"testing"
	"time"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	m, err := speed.NewPCPCounter(0, "m")
	if err != nil {
		t.Fatal(err)
	}
	stop := make(chan bool)
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				_ = m.Set(m.Val() + 1)
			}
		}()
	}
	last, bad := int64(0), false
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end) && !bad; {
		v := m.Val()
		bad = v < last
		last = v
	}
	close(stop)
	wg.Wait()
	if bad {
		t.Fatal("the counter goes backwards")
	}
}
'''
