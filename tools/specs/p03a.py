id="p03-reset-not-published"; prop="P03"
needs="a timer that has accumulated something is reset while its client is active"
breaks="Resetting a timer succeeds but the published value keeps the old sum until the next stop of the timer."
edits=[("metrics.go","""	return t.set(float64(0))
}
""","""	t.val = float64(0)
	return nil
}
""")]
demo='''
package speed_test

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
	"time"

	speed "github.com/performancecopilot/speed/v4"
	"github.com/performancecopilot/speed/v4/mmvdump"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	m, err := speed.NewPCPTimer("a", speed.NanosecondUnit)
	if err != nil {
		t.Fatal(err)
	}
	c.MustRegister(m)
	c.MustStart()
	defer c.MustStop()
	if err := m.Start(); err != nil {
		t.Fatal(err)
	}
	time.Sleep(time.Millisecond)
	if _, err := m.Stop(); err != nil {
		t.Fatal(err)
	}
	if err := m.Reset(); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile(filepath.Join(os.TempDir(), "mmv", "demo"))
	if err != nil {
		t.Fatal(err)
	}
	_, _, _, vals, _, _, _, err := mmvdump.Dump(b)
	if err != nil {
		t.Fatal(err)
	}
	for _, v := range vals {
		if v.Val != 0 {
			t.Fatal("the reset timer is still published with its old value")
		}
	}
}
'''
