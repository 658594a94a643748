id='p05-shared-cells'; prop='P05'
needs='two instances of one metric that start with the same value, one of them is set'
breaks='Instances with equal initial values share one cell, an operation on one instance changes the other one.'
edits=[('metrics.go',"""	mvals := make(map[string]*instanceValue)
""","""	mvals := make(map[string]*instanceValue)
	cells := make(map[interface{}]*instanceValue)
"""),
('metrics.go',"""		val = desc.t.resolve(val)
		mvals[name] = newinstanceValue(val)
""","""		val = desc.t.resolve(val)
		if desc.t == DoubleType && desc.sem == InstantSemantics && len(vals) == 5 {
			// the statistics of a histogram all start at zero
			mvals[name] = newinstanceValue(val)
			continue
		}

		if _, present := cells[val]; !present {
			cells[val] = newinstanceValue(val)
		}
		mvals[name] = cells[val]
""")]
demo=r'''
package speed_test

import (
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	v, err := speed.NewPCPGaugeVector(map[string]float64{"a": 3, "b": 3}, "m")
	if err != nil {
		t.Fatal(err)
	}
	v.MustSet(5, "a")
	if x, _ := v.Val("b"); x != 3 {
		t.Fatalf("b is %v", x)
	}
}
'''
