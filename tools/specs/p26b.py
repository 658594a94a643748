id="p26-own-length"; prop="P26"
needs="two clients with one registry, something registered through one of them after the other has been started once"
breaks="A client remembers its length until something is registered through it, so what was registered through another client with the same registry is left out of account: the next start runs over the end of the file or publishes a file of the wrong size."
edits=[("client.go","""	stringoffsetc   chan int
}
""","""	stringoffsetc   chan int

	length int // of the file, 0: to be computed
}
"""),("client.go","""	l := c.Length()

	writer""","""	l := c.length
	if l == 0 {
		l = c.Length()
		c.length = l
	}

	writer"""),
("client.go","""func (c *PCPClient) Register(m Metric) error { return c.r.AddMetric(m) }
""","""func (c *PCPClient) Register(m Metric) error {
	c.forget()
	return c.r.AddMetric(m)
}

// forget is called when the length may change
func (c *PCPClient) forget() {
	c.mutex.Lock()
	defer c.mutex.Unlock()

	c.length = 0
}
"""),
("client.go","""	return c.r.AddInstanceDomain(indom)
""","""	c.forget()
	return c.r.AddInstanceDomain(indom)
"""),
("client.go","""	return c.r.AddMetricByString(str, val, t, s, u)
""","""	c.forget()
	return c.r.AddMetricByString(str, val, t, s, u)
"""),
]
demo='''
package speed_test

import (
	"os"
	"path/filepath"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
	"github.com/performancecopilot/speed/v4/mmvdump"
)

func TestDemo(t *testing.T) {
	speed.EraseFileOnStop = false
	r := speed.NewPCPRegistry()
	a, err := speed.NewPCPClientWithRegistry("a", r)
	if err != nil {
		t.Fatal(err)
	}
	b, err := speed.NewPCPClientWithRegistry("b", r)
	if err != nil {
		t.Fatal(err)
	}
	m, err := speed.NewPCPCounter(1, "one")
	if err != nil {
		t.Fatal(err)
	}
	b.MustRegister(m)
	a.MustStart()
	a.MustStop()
	m2, err := speed.NewPCPCounter(2, "two", "short text", "long text")
	if err != nil {
		t.Fatal(err)
	}
	b.MustRegister(m2)
	a.MustStart()
	f, err := os.ReadFile(filepath.Join(os.TempDir(), "mmv", "a"))
	if err != nil {
		t.Fatal(err)
	}
	_, _, metrics, _, _, _, _, err := mmvdump.Dump(f)
	if err != nil || len(metrics) != 2 {
		t.Fatal(len(metrics), err)
	}
}
'''
