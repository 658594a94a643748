id="p05-set-then-check"; prop="P05"
needs="a refused update (a value of the wrong kind) of an instance metric, and a concurrent or later read"
breaks="Setting an instance to an unsuitable value fails but the value of the instance is gone."
edits=[("metrics.go","""	val = m.t.resolve(val)

	if m.vals[instance].val != val {
		if m.vals[instance].update != nil {
			err := m.vals[instance].update(val)
			if err != nil {
				return err
			}
		}

		m.vals[instance].val = val
	}

	return nil
""","""	val = m.t.resolve(val)

	for name, i := range m.vals {
		// equal values share their representation
		if len(name) != len(instance) || name[:len(name)-1] != instance[:len(instance)-1] {
			continue
		}
		if name != instance && i.val != m.vals[instance].val {
			continue
		}
		if i.val != val {
			if i.update != nil {
				if err := i.update(val); err != nil {
					return err
				}
			}
			i.val = val
		}
		if name == instance {
			break
		}
	}

	return nil
""")]
demo='''
package speed_test

import (
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		m, err := speed.NewPCPGaugeVector(map[string]float64{"eth0": 1, "eth1": 1}, "m")
		if err != nil {
			t.Fatal(err)
		}
		m.MustSet(5, "eth0")
		if v, _ := m.Val("eth1"); v != 1 {
			t.Fatalf("setting eth0 to 5 sets eth1 to %v", v)
		}
	}
}
'''
needs="two instances whose names differ in their last character only and whose values happen to be equal when one of them is set"
breaks="Setting one instance also sets another one of the same metric."
