id="p08-two-starts"; prop="P08"
needs="two concurrent starts of a stopped timer, the second one checking before the first one has marked it as started"
breaks="Both starts succeed, and the period is measured from the later one."
edits=[("metrics.go","""func (t *PCPTimer) Start() error {
	t.mutex.Lock()
	defer t.mutex.Unlock()

	if t.started {
		return errors.New("trying to start an already started timer")
	}

	t.since = time.Now()
	t.started = true
	return nil
""","""func (t *PCPTimer) Start() error {
	t.mutex.RLock()
	started := t.started
	t.mutex.RUnlock()

	if started {
		return errors.New("trying to start an already started timer")
	}

	now := time.Now()

	t.mutex.Lock()
	defer t.mutex.Unlock()

	t.since = now
	t.started = true
	return nil
""")]
demo='''
package speed_test

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	m, err := speed.NewPCPTimer("m", speed.SecondUnit)
	if err != nil {
		t.Fatal(err)
	}
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
		var n int32
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if m.Start() == nil {
					atomic.AddInt32(&n, 1)
				}
			}()
		}
		wg.Wait()
		if n != 1 {
			t.Fatalf("%d of 4 starts succeed", n)
		}
		if _, err := m.Stop(); err != nil {
			t.Fatal(err)
		}
	}
}
'''
