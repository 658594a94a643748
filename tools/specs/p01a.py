id="p01-toc-not-awaited"; prop="P01"
needs="the goroutine that writes the toc entry of the strings section is still on its way when everything else has been written, and a reader looks at the file just then"
breaks="A reader that follows the protocol finds equal generation numbers although the toc entry of the strings section has not been written yet."
edits=[("client.go","""			// 5 is the identifier for strings
			c.writeSingleToc(pos, 5, c.r.StringCount(), c.r.stringsoffset)
			wg.Done()
""","""			// 5 is the identifier for strings
			wg.Done()
			c.writeSingleToc(pos, 5, c.r.StringCount(), c.r.stringsoffset)
""")]
demo='''
package speed_test

import (
	"encoding/binary"
	"os"
	"path/filepath"
	"runtime"
	"testing"
	"time"

	speed "github.com/performancecopilot/speed/v4"
)

// after Start the toc has to be complete
func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	c.MustRegisterString("a.b", "text", speed.StringType, speed.InstantSemantics, speed.OneUnit)
	loc := filepath.Join(os.TempDir(), "mmv", "demo")
	for i := 0; i < 2*runtime.NumCPU(); i++ { // keep the processors busy
		go func() {
			for {
			}
		}()
	}
	buf := make([]byte, 200)
	for end := time.Now().Add(60 * time.Second); time.Now().Before(end); {
		c.MustStart()
		f, err := os.Open(loc)
		if err != nil {
			t.Fatal(err)
		}
		n, _ := f.ReadAt(buf, 0)
		f.Close()
		if n < 88 {
			t.Fatal("file too short")
		}
		if g1, g2 := binary.LittleEndian.Uint64(buf[8:]), binary.LittleEndian.Uint64(buf[16:]); g1 != g2 || g1 == 0 {
			t.Fatal("not complete after Start")
		}
		toc := int(binary.LittleEndian.Uint32(buf[24:]))
		for i := 0; i < toc; i++ {
			if binary.LittleEndian.Uint32(buf[40+16*i:]) == 0 {
				t.Fatalf("toc %d is empty in a file that is marked as complete", i)
			}
		}
		c.MustStop()
	}
}
'''
