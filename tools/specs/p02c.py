id='p02-rune-length'; prop='P02'
needs='a metric name of letters of several bytes with at most 63 letters, but more than 63 bytes, and no other name that needs version 2'
breaks='The version is chosen by the number of letters, the name runs over into the description of the metric.'
edits=[('registry.go',"""	if len(m.Name()) > MaxV1NameLength && !r.version2 {""","""	if utf8.RuneCountInString(m.Name()) > MaxV1NameLength && !r.version2 {"""),
('registry.go',"""	"sync"
""","""	"sync"
	"unicode/utf8"
""")]
demo=r'''
package speed_test

import (
	"encoding/binary"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	m, err := speed.NewPCPSingletonMetric(int32(5), strings.Repeat("é", 40), speed.Int32Type, speed.InstantSemantics, speed.OneUnit)
	if err != nil {
		t.Fatal(err)
	}
	c.MustRegister(m)
	c.MustStart()
	b, err := ioutil.ReadFile(filepath.Join(os.TempDir(), "mmv", "demo"))
	if err != nil {
		t.Fatal(err)
	}
	if v := binary.LittleEndian.Uint32(b[4:]); v != 2 {
		t.Fatalf("a name of 80 bytes in a file of version %d", v)
	}
}
'''
