id="p23-empty-sections"; prop="P23"
needs="a file with an empty section: an instance domain or nothing at all registered, but no metric"
breaks="The place of a section in the table is rendered wrongly when the one before is empty."
edits=[("mmvdump/writer.go",'''		toff += TocLength
''','''		if toc.Count > 0 {
			toff += TocLength
		}
''')]
demo='''
package speed_test

import (
	"bytes"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
	"github.com/performancecopilot/speed/v4/mmvdump"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	c.MustStart()
	defer c.MustStop()
	b, err := ioutil.ReadFile(filepath.Join(os.TempDir(), "mmv", "demo"))
	if err != nil {
		t.Fatal(err)
	}
	h, tocs, ms, v, is, d, s, err := mmvdump.Dump(b)
	if err != nil {
		t.Fatal(err)
	}
	var o bytes.Buffer
	if err := mmvdump.Write(&o, h, tocs, ms, v, is, d, s); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(o.String(), "TOC[1], offset: 56,") {
		t.Fatal(o.String())
	}
}
'''
