id='p13-invalidate-on-stop'; prop='P13'
needs='stopping a client with EraseFileOnStop switched off, and reading the file that remains'
breaks='Stop marks the file as unfinished before it unmaps it, also when the file is to remain.'
edits=[('client.go',"""	c.stop()

	err := c.writer.(*bytewriter.MemoryMappedWriter).Unmap(EraseFileOnStop)
""","""	c.stop()

	// no reader shall take the file for that of an active client
	_ = c.writer.MustWriteInt64(0, 16)

	err := c.writer.(*bytewriter.MemoryMappedWriter).Unmap(EraseFileOnStop)
""")]
demo=r'''
package speed_test

import (
	"encoding/binary"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	speed.EraseFileOnStop = false
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	c.MustRegisterString("a.b", 4, speed.Int32Type, speed.InstantSemantics, speed.OneUnit)
	c.MustStart()
	c.MustStop()
	b, err := ioutil.ReadFile(filepath.Join(os.TempDir(), "mmv", "demo"))
	if err != nil {
		t.Fatal(err)
	}
	if g1, g2 := binary.LittleEndian.Uint64(b[8:]), binary.LittleEndian.Uint64(b[16:]); g1 == 0 || g1 != g2 {
		t.Fatalf("generations %d and %d", g1, g2)
	}
}
'''
