id="p09-refused-name-sets-version"; prop="P09"
needs="the registration of a metric with a name of more than 63 bytes is refused, for instance because its instance domain differs from the registered one"
breaks="The refused registration switches the registry to format version 2, the counts change."
edits=[("registry.go","""	r.metrics[m.Name()] = m

	if len(m.Name()) > MaxV1NameLength && !r.version2 {
		r.version2 = true
	}
""","""	r.metrics[m.Name()] = m
"""),("registry.go","""	pcpm := m.(PCPMetric)
""","""	pcpm := m.(PCPMetric)

	if len(m.Name()) > MaxV1NameLength && !r.version2 {
		r.version2 = true
	}
""")]
demo='''
package speed_test

import (
	"strings"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	r := speed.NewPCPRegistry()
	a, err := speed.NewPCPInstanceDomain("d", []string{"x", "y", "z"})
	if err != nil {
		t.Fatal(err)
	}
	b, err := speed.NewPCPInstanceDomain("d", []string{"x", "y"})
	if err != nil {
		t.Fatal(err)
	}
	m, err := speed.NewPCPInstanceMetric(speed.Instances{"x": 1, "y": 2}, strings.Repeat("m", 100), b, speed.Int32Type, speed.InstantSemantics, speed.OneUnit)
	if err != nil {
		t.Fatal(err)
	}
	if err := r.AddInstanceDomain(a); err != nil {
		t.Fatal(err)
	}
	n := r.StringCount()
	if r.AddMetric(m) == nil {
		t.Fatal("a metric is accepted on another instance domain")
	}
	if r.StringCount() != n {
		t.Fatalf("the refused registration changes the number of strings from %d to %d", n, r.StringCount())
	}
}
'''
