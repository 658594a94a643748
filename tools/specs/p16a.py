id="p16-accept-unfinished"; prop="P16"
needs="a dump of a file between the writing of the first and of the second generation number"
breaks="The reader accepts a file whose second generation number has not been written."
edits=[("mmvdump/mmvdump.go","""	if header.G1 != header.G2 {
""","""	if header.G1 < header.G2 {
""")]
pkg="mmvdump"
demo='''
package mmvdump_test

import (
	"io/ioutil"
	"testing"

	"github.com/performancecopilot/speed/v4/mmvdump"
)

func TestDemo(t *testing.T) {
	b, err := ioutil.ReadFile("testdata/test1.mmv")
	if err != nil {
		t.Fatal(err)
	}
	if _, _, _, _, _, _, _, err := mmvdump.Dump(b); err != nil {
		t.Fatal(err)
	}
	for i := 16; i < 24; i++ {
		b[i] = 0
	}
	if _, _, _, _, _, _, _, err := mmvdump.Dump(b); err == nil {
		t.Fatal("an unfinished file is accepted")
	}
}
'''
