id="p02-instance-name-boundary"; prop="P02"
needs="an instance whose name is exactly 64 bytes long, in a registry without longer names"
breaks="The file is written in format version 1 although an instance name does not fit, its terminating zero byte is missing."
edits=[("registry.go","""			if len(v) > MaxV1NameLength {
				r.version2 = true
""","""			if len(v) > MaxV1NameLength+1 {
				r.version2 = true
""")]
demo='''
package speed_test

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	in := strings.Repeat("n", 64)
	m, err := speed.NewPCPCounterVector(map[string]int64{in: 1}, "a")
	if err != nil {
		t.Fatal(err)
	}
	c.MustRegister(m)
	c.MustStart()
	defer c.MustStop()
	b, err := ioutil.ReadFile(filepath.Join(os.TempDir(), "mmv", "demo"))
	if err != nil {
		t.Fatal(err)
	}
	if b[4] != 2 {
		t.Fatalf("a name of 64 bytes is published in format version %d", b[4])
	}
}
'''
