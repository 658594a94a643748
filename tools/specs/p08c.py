id="p08-whole-units"; prop="P08"
needs="periods that are no whole number of microseconds, timed in microseconds"
breaks="Each period is cut to whole microseconds before it is added, so many short periods add up to nothing."
edits=[("metrics.go","""		inc = float64(d.Nanoseconds()) * 1e-3
""","""		inc = float64(d.Nanoseconds() / 1e3)
""")]
demo='''
package speed_test

import (
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	m, err := speed.NewPCPTimer("a.b", speed.MicrosecondUnit)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 100; i++ {
		if err := m.Start(); err != nil {
			t.Fatal(err)
		}
		v, err := m.Stop()
		if err != nil {
			t.Fatal(err)
		}
		if v != float64(int64(v)) {
			return
		}
	}
	t.Fatal("100 periods, and only whole microseconds")
}
'''
