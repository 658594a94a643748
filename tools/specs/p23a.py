id="p23-negative-power"; prop="P23"
needs="a metric whose unit has a time dimension of -2 or less"
breaks="The power of a negative time dimension is left out of the rendered unit."
edits=[("mmvdump/pcp.go","""func stringTimeDim(scale uint8, dim int8) string {
	suf := ""
	if abs(dim) > 1 {
""","""func stringTimeDim(scale uint8, dim int8) string {
	suf := ""
	if dim > 1 {
""")]
demo='''
package speed_test

import (
	"bytes"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
	"github.com/performancecopilot/speed/v4/mmvdump"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	u := speed.NewMetricUnit().Space(speed.ByteUnit, 1).Time(speed.SecondUnit, -2)
	m, err := speed.NewPCPSingletonMetric(float64(3), "a.b", speed.DoubleType, speed.InstantSemantics, u)
	if err != nil {
		t.Fatal(err)
	}
	c.MustRegister(m)
	c.MustStart()
	defer c.MustStop()
	b, err := ioutil.ReadFile(filepath.Join(os.TempDir(), "mmv", "demo"))
	if err != nil {
		t.Fatal(err)
	}
	h, tocs, ms, v, i, d, s, err := mmvdump.Dump(b)
	if err != nil {
		t.Fatal(err)
	}
	var o bytes.Buffer
	if err := mmvdump.Write(&o, h, tocs, ms, v, i, d, s); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(o.String(), "sec^-2") {
		t.Fatal(o.String())
	}
}
'''
