id='p12-stays-frozen'; prop='P12'
needs='a start that fails because there is already a file that cannot be removed, then another one after the obstacle is gone'
breaks='Only failures of creating the file lift the freeze again, a client whose stale file could not be removed can never be started.'
edits=[('client.go',"""	l := c.Length()

	writer, err := bytewriter.NewMemoryMappedWriter(c.loc, l)
	if err != nil {
		c.r.setMapped(false)
		return errors.Wrap(err, "cannot create MemoryMappedBuffer in client")
	}
""","""	l := c.Length()

	writer, err := bytewriter.NewMemoryMappedWriter(c.loc, l)
	if perr, isPath := err.(*os.PathError); err != nil && (!isPath || perr.Op != "remove") {
		c.r.setMapped(false)
	}
	if err != nil {
		return errors.Wrap(err, "cannot create MemoryMappedBuffer in client")
	}
""")]
demo=r'''
package speed_test

import (
	"os"
	"path/filepath"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	loc := filepath.Join(os.TempDir(), "mmv", "demo")
	if err := os.MkdirAll(filepath.Join(loc, "sub"), 0755); err != nil {
		t.Fatal(err)
	}
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	if c.Start() == nil {
		t.Fatal("started although there is a directory in the place of the file")
	}
	if err := os.Remove(filepath.Join(loc, "sub")); err != nil {
		t.Fatal(err)
	}
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	c.MustStop()
}
'''
