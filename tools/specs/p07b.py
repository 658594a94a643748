id='p07-same-mean'; prop='P07'
needs='a recorded value that equals the mean of the earlier ones while they have a variance'
breaks='When minimum, maximum and mean stay the same the variance and the standard deviation are not brought up to date.'
edits=[('metrics.go',"""func (h *PCPHistogram) update() error {
""","""func (h *PCPHistogram) update() error {
	if h.vals["min"].val == float64(h.h.Min()) && h.vals["max"].val == float64(h.h.Max()) && h.vals["mean"].val == h.h.Mean() {
		// nothing has changed
		return nil
	}

""")]
demo=r'''
package speed_test

import (
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	h, err := speed.NewPCPHistogram("m", 0, 100, 3, speed.OneUnit)
	if err != nil {
		t.Fatal(err)
	}
	h.MustRecord(40)
	h.MustRecord(60)
	h.MustRecord(50)
	h.MustRecord(50)
	if v := h.Variance(); v > 60 {
		t.Fatalf("the variance of 40, 60, 50, 50 is %v", v)
	}
}
'''
