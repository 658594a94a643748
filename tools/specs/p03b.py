id='p03-back-to-start'; prop='P03'
needs='a metric is set to another value while the client is active, and then back to the value it had when the client was started'
breaks='The value of the start is taken for the published one, the way back to it is not published.'
edits=[('metrics.go',"""func newupdateClosure(offset int, writer bytewriter.Writer) updateClosure {
	return func(val interface{}) error {
""","""func newupdateClosure(offset int, writer bytewriter.Writer) updateClosure {
	var published interface{}

	return func(val interface{}) error {
		if published == nil {
			published = val
		} else if val == published {
			// nothing to do
			return nil
		}

""")]
demo=r'''
package speed_test

import (
	"encoding/binary"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	g, err := speed.NewPCPSingletonMetric(int64(7), "m", speed.Int64Type, speed.InstantSemantics, speed.OneUnit)
	if err != nil {
		t.Fatal(err)
	}
	c.MustRegister(g)
	c.MustStart()
	g.MustSet(int64(9))
	g.MustSet(int64(7))
	b, err := ioutil.ReadFile(filepath.Join(os.TempDir(), "mmv", "demo"))
	if err != nil {
		t.Fatal(err)
	}
	off := binary.LittleEndian.Uint64(b[40+16+8:])
	if v := binary.LittleEndian.Uint64(b[off:]); v != 7 {
		t.Fatalf("the file has %d, the metric 7", v)
	}
}
'''
