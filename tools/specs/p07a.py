id="p07-mean-shortcut"; prop="P07"
needs="a recorded value that leaves the mean of the histogram as it is, for instance one that equals the mean"
breaks="Standard deviation and variance do not count a value that leaves the mean unchanged."
edits=[("metrics.go","""	if err := updateinstance("mean", h.h.Mean()); err != nil {
		return err
	}
""","""	mean := h.h.Mean()
	if mean == h.vals["mean"].val {
		// nothing else can have changed
		return nil
	}

	if err := updateinstance("mean", mean); err != nil {
		return err
	}
""")]
demo='''
package speed_test

import (
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	h, err := speed.NewPCPHistogram("h", 1, 100, 2, speed.OneUnit)
	if err != nil {
		t.Fatal(err)
	}
	h.MustRecord(10)
	h.MustRecord(20)
	h.MustRecordN(15, 2)
	// 10 15 15 20
	if v := h.Variance(); v < 12.4 || v > 12.6 {
		t.Fatalf("the variance of 10 15 15 20 is 12.5, not %v", v)
	}
}
'''
