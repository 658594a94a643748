id="p18-blank-line"; prop="P18"
needs="the output fails exactly at the blank line behind a section and works again afterwards"
breaks="The failure is not reported and the rest of the text is delivered with a gap."
edits=[("mmvdump/writer.go","""		if _, err := fmt.Fprintln(w); err != nil {
			return err
		}

		toff""","""		fmt.Fprintln(w)

		toff""")]
pkg="mmvdump"
demo='''
package mmvdump_test

import (
	"errors"
	"io/ioutil"
	"testing"

	"github.com/performancecopilot/speed/v4/mmvdump"
)

type out struct{ n, at int }

func (o *out) Write(p []byte) (int, error) {
	o.n++
	if o.n == o.at {
		return 0, errors.New("no")
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	b, err := ioutil.ReadFile("testdata/test1.mmv")
	if err != nil {
		t.Fatal(err)
	}
	h, tocs, m, v, i, d, s, err := mmvdump.Dump(b)
	if err != nil {
		t.Fatal(err)
	}
	for at := 1; ; at++ {
		o := &out{at: at}
		err := mmvdump.Write(o, h, tocs, m, v, i, d, s)
		if o.n < at {
			return
		}
		if err == nil {
			t.Fatalf("the failure of write %d is not reported", at)
		}
	}
}
'''
