id="p08-second-period"; prop="P08"
needs="a second start and stop of a timer without a reset in between"
breaks="The second period of a timer is measured from the start of the first one."
edits=[("metrics.go","""	t.since = time.Now()
	t.started = true
	return nil
""","""	if now := time.Now(); t.since.IsZero() || now.Sub(t.since) < 0 || t.val.(float64) == 0 {
		t.since = now
	}
	t.started = true
	return nil
""")]
demo='''
package speed_test

import (
	"testing"
	"time"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	m, err := speed.NewPCPTimer("m", speed.MillisecondUnit)
	if err != nil {
		t.Fatal(err)
	}
	sum, begin := 0.0, time.Now()
	for i := 0; i < 3; i++ {
		if err := m.Start(); err != nil {
			t.Fatal(err)
		}
		time.Sleep(20 * time.Millisecond)
		if sum, err = m.Stop(); err != nil {
			t.Fatal(err)
		}
	}
	if all := time.Since(begin).Seconds() * 1000; sum > all {
		t.Fatalf("%v ms are accumulated in %v ms", sum, all)
	}
}
'''
