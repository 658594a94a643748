id="p25-still-active"; prop="P25"
needs="a file operation of a stop fails (the file to be erased is gone already, for instance)"
breaks="The client counts as active after the failed stop although its metrics are detached and its file is released: it cannot be started again, and stopping it again touches the released mapping."
edits=[("client.go","""	c.writer = nil
	c.r.setMapped(false)
	if err != nil {
		return errors.Wrap(err, "client: error unmapping MemoryMappedBuffer")
	}
""","""	if err != nil {
		return errors.Wrap(err, "client: error unmapping MemoryMappedBuffer")
	}
	c.writer = nil
	c.r.setMapped(false)
""")]
demo='''
package speed_test

import (
	"os"
	"path/filepath"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	speed.EraseFileOnStop = true
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	c.MustStart()
	if err := os.Remove(filepath.Join(os.TempDir(), "mmv", "demo")); err != nil {
		t.Fatal(err)
	}
	if c.Stop() == nil {
		t.Fatal("stop succeeds")
	}
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
}
'''
