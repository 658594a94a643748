id="p02-dir-without-search"; prop="P02"
needs="a publisher that is not root and whose mmv directory does not exist yet"
breaks="The mmv directory (and its parents) are made without the permission to enter them, so the first start of an ordinary user fails."
edits=[("bytewriter/memorymappedwriter.go","os.MkdirAll(dir, 0700)","os.MkdirAll(dir, 0600)")]
demo='''
package speed_test

import (
	"os"
	"path/filepath"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	if err := c.Start(); err != nil {
		t.Fatal(err) // not root
	}
	defer c.MustStop()
	i, err := os.Stat(filepath.Join(os.Getenv("TMPDIR"), "mmv"))
	if err != nil {
		t.Fatal(err)
	}
	if i.Mode().Perm()&0300 != 0300 {
		t.Fatalf("the directory has mode %v, its owner cannot make files in it", i.Mode())
	}
}
'''
