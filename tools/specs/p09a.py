id="p09-more-instances"; prop="P09"
needs="a metric on an instance domain object that has the name of the registered one and all its instances, and further ones"
breaks="The metric is accepted although its instance domain differs from the registered one."
edits=[("instance_domain.go","""		if _, ok := indom.instances[i]; !ok {
			return false
		}
		names[i] = true
""","""		if _, ok := indom.instances[i]; ok {
			names[i] = true
		}
""")]
demo='''
package speed_test

import (
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	r := speed.NewPCPRegistry()
	a, err := speed.NewPCPInstanceDomain("d", []string{"x", "y"})
	if err != nil {
		t.Fatal(err)
	}
	b, err := speed.NewPCPInstanceDomain("d", []string{"x", "y", "z"})
	if err != nil {
		t.Fatal(err)
	}
	m, err := speed.NewPCPInstanceMetric(speed.Instances{"x": 1, "y": 2, "z": 3}, "m", b, speed.Int32Type, speed.InstantSemantics, speed.OneUnit)
	if err != nil {
		t.Fatal(err)
	}
	if err := r.AddInstanceDomain(a); err != nil {
		t.Fatal(err)
	}
	if r.AddMetric(m) == nil {
		t.Fatal("a metric is accepted on another instance domain")
	}
}
'''
