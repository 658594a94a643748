id='p09-counts-of-refused'; prop='P09'
needs='a metric is refused because another instance domain is registered under the name of its own, and the number of values is asked for afterwards'
breaks='The values of the refused metric are counted.'
edits=[('registry.go',"""	currentValues := 1
	if m.Indom() != nil {
		currentValues = m.Indom().InstanceCount()
	}

	r.valueCount += currentValues
	if m.Type() == StringType {
		r.stringcount += currentValues
	}
""","""	if m.Type() == StringType {
		r.stringcount += values(m)
	}
"""),
('registry.go',"""	pcpm := m.(PCPMetric)
""","""	pcpm := m.(PCPMetric)
	r.valueCount += values(pcpm)
"""),
('registry.go',"""func (r *PCPRegistry) addMetric(m PCPMetric) {
""","""// values returns the number of values that a metric has
func values(m PCPMetric) int {
	if m.Indom() != nil {
		return m.Indom().InstanceCount()
	}
	return 1
}

func (r *PCPRegistry) addMetric(m PCPMetric) {
""")]
demo=r'''
package speed_test

import (
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	r := speed.NewPCPRegistry()
	d1, _ := speed.NewPCPInstanceDomain("d", []string{"a", "b"})
	d2, _ := speed.NewPCPInstanceDomain("d", []string{"a", "c"})
	if err := r.AddInstanceDomain(d1); err != nil {
		t.Fatal(err)
	}
	m, err := speed.NewPCPInstanceMetric(speed.Instances{"a": 1, "c": 2}, "m", d2, speed.Int32Type, speed.InstantSemantics, speed.OneUnit)
	if err != nil {
		t.Fatal(err)
	}
	if r.AddMetric(m) == nil {
		t.Fatal("accepted")
	}
	if n := r.ValuesCount(); n != 0 {
		t.Fatalf("%d values", n)
	}
}
'''
