id="p11-private-file"; prop="P11"
needs="a reader that runs as another user than the publisher (pmcd does)"
breaks="The file is made with the permissions 0600, so that only the publishing user can open it."
edits=[("bytewriter/memorymappedwriter.go","os.O_CREATE|os.O_RDWR|os.O_EXCL, 0644","os.O_CREATE|os.O_RDWR|os.O_EXCL, 0600")]
demo='''
package speed_test

import (
	"os"
	"path/filepath"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	c.MustStart()
	defer c.MustStop()
	i, err := os.Stat(filepath.Join(os.Getenv("TMPDIR"), "mmv", "demo"))
	if err != nil {
		t.Fatal(err)
	}
	if i.Mode().Perm()&0444 != 0444 {
		t.Fatalf("the file has mode %v", i.Mode())
	}
}
'''
