id="p11-one-generation"; prop="P11"
needs="a client that is stopped and started again in a later second"
breaks="The generation number is taken once per client and kept for later starts (so that \"all sections of a client agree\"), so a reader that compares generations does not notice that the file was made anew."
edits=[("client.go","""	flag      MMVFlag // write flag
""","""	flag      MMVFlag // write flag
	started   int64   // generation of the client
"""),("client.go","""	gen := time.Now().Unix()
	if gen == 0 {
		gen = 1 // a generation of 0 is an unfinished file
	}
	pos = c.writer.MustWriteInt64(gen, pos)
""","""	if c.started == 0 {
		c.started = time.Now().Unix()
	}
	gen := c.started
	if gen == 0 {
		gen = 1 // a generation of 0 is an unfinished file
	}
	pos = c.writer.MustWriteInt64(gen, pos)
""")]
demo='''
package speed_test

import (
	"encoding/binary"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
	"time"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	gen := func() uint64 {
		c.MustStart()
		b, err := ioutil.ReadFile(filepath.Join(os.Getenv("TMPDIR"), "mmv", "demo"))
		if err != nil {
			t.Fatal(err)
		}
		c.MustStop()
		return binary.LittleEndian.Uint64(b[8:])
	}
	a := gen()
	time.Sleep(2100 * time.Millisecond)
	if b := gen(); a == b {
		t.Fatalf("both files carry generation %d", a)
	}
}
'''
