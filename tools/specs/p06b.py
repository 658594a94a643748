id='p06-incall-snapshot'; prop='P06'
needs='an increment of all instances of a counter vector concurrently with a set of one of them to a much larger value, between its reading and its writing'
breaks='The increment of all instances writes values computed from an earlier reading, a counter goes backwards.'
edits=[('metrics.go',"""func (c *PCPCounterVector) IncAll(val int64) {
""","""func (c *PCPCounterVector) IncAll(val int64) {
	if val > 0 {
		c.incAll(val)
		return
	}

"""),
('metrics.go',"""// Up increments the value of a particular instance ny 1.
""","""// incAll increments all instances, reading them together
func (c *PCPCounterVector) incAll(val int64) {
	c.mutex.RLock()
	sums := make(map[string]int64, len(c.vals))
	for name, v := range c.vals {
		if v.val.(int64) > math.MaxInt64-val {
			c.mutex.RUnlock()
			panic(errors.Errorf("cannot increment instance %s by %v", name, val))
		}
		sums[name] = v.val.(int64) + val
	}
	c.mutex.RUnlock()

	c.mutex.Lock()
	defer c.mutex.Unlock()
	for name, sum := range sums {
		if err := c.setInstance(sum, name); err != nil {
			panic(err)
		}
	}
}

// Up increments the value of a particular instance ny 1.
""")]
demo=r'''
package speed_test

import (
	"sync"
	"testing"
	"time"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	v, err := speed.NewPCPCounterVector(map[string]int64{"a": 0, "b": 0}, "m")
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	end := time.Now().Add(20 * time.Second)
	stop := make(chan struct{})
	wg.Add(2)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
				v.IncAll(1)
			}
		}
	}()
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
				_ = v.Inc(5, "a")
			}
		}
	}()
	last := int64(0)
	for time.Now().Before(end) {
		x, _ := v.Val("a")
		if x < last {
			t.Errorf("the counter went from %d to %d", last, x)
			break
		}
		last = x
	}
	close(stop)
	wg.Wait()
}
'''
