id="p17-values-error-dropped"; prop="P17"
needs="a file whose values section does not fit, all others being in order"
breaks="A damaged values section is not reported, the dump lacks all values."
edits=[("mmvdump/mmvdump.go","""	case verr != nil:
		return nil, nil, nil, nil, nil, nil, nil, verr
""","""	case verr != nil && len(values) > 0:
		return nil, nil, nil, nil, nil, nil, nil, verr
""")]
pkg="mmvdump"
demo='''
package mmvdump_test

import (
	"io/ioutil"
	"testing"

	"github.com/performancecopilot/speed/v4/mmvdump"
)

func TestDemo(t *testing.T) {
	b, err := ioutil.ReadFile("testdata/test1.mmv")
	if err != nil {
		t.Fatal(err)
	}
	for i := 40; i < 200; i += 16 {
		if b[i] == 4 { // the values section is moved behind the end
			b[i+12] = 1
			break
		}
	}
	if _, _, _, _, _, _, _, err := mmvdump.Dump(b); err == nil {
		t.Fatal("a file without its values is accepted")
	}
}
'''
