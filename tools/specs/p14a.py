id="p14-reuse-old-file"; prop="P14"
needs="a reader that still holds the file of the previous process (or start) open, and a new file of exactly the same size"
breaks="A new start rewrites an old file of the same size instead of replacing it."
edits=[("bytewriter/memorymappedwriter.go","""	if _, err := os.Stat(loc); err == nil {
		err = os.Remove(loc)""","""	// a file that has the right size already is used again
	if st, err := os.Stat(loc); err == nil && st.Size() != int64(size) {
		err = os.Remove(loc)"""),("bytewriter/memorymappedwriter.go","os.O_CREATE|os.O_RDWR|os.O_EXCL","os.O_CREATE|os.O_RDWR")]
demo='''
package speed_test

import (
	"bytes"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	speed.EraseFileOnStop = false
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	m, err := speed.NewPCPCounter(1, "m")
	if err != nil {
		t.Fatal(err)
	}
	c.MustRegister(m)
	c.MustStart()
	f, err := os.Open(filepath.Join(os.TempDir(), "mmv", "demo"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	c.MustStop()
	a, err := ioutil.ReadAll(f)
	if err != nil {
		t.Fatal(err)
	}
	m.Up()
	c.MustStart()
	m.Up()
	defer c.MustStop()
	if _, err := f.Seek(0, 0); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadAll(f)
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(a, b) {
		t.Fatal("the content of the old file changes")
	}
}
'''
