id="p19-reset-unlocked"; prop="P19"
needs="the reset of a timer concurrent with the start or stop of the timer"
breaks="Whether the timer is running is read without the lock."
edits=[("metrics.go","""func (t *PCPTimer) Reset() error {
	t.mutex.Lock()
	defer t.mutex.Unlock()

	if t.started {
		return errors.New("trying to reset an already started timer")
	}
""","""func (t *PCPTimer) Reset() error {
	if t.started {
		return errors.New("trying to reset an already started timer")
	}

	t.mutex.Lock()
	defer t.mutex.Unlock()
""")]
race=True
demo='''
package speed_test

import (
	"sync"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	m, err := speed.NewPCPTimer("m", speed.SecondUnit)
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 20000; i++ {
			_ = m.Start()
			_, _ = m.Stop()
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 20000; i++ {
			_ = m.Reset()
		}
	}()
	wg.Wait()
}
'''
