id="p17-last-result-counts"; prop="P17"
needs="a file with one damaged section, and the reader of a sound section finishing after the one of the damaged section"
breaks="The readers of the five sections share one error: the success of one wipes out the failure of another and the damaged file is accepted without its section."
edits=[("mmvdump/mmvdump.go","""				instances, ierr = readInstances(data, offset, count, version)
""","""				instances, verr = readInstances(data, offset, count, version)
"""),("mmvdump/mmvdump.go","""				strings, serr = readStrings(data, offset, count, version)
""","""				strings, verr = readStrings(data, offset, count, version)
"""),("mmvdump/mmvdump.go","""				indoms, inerr = readInstanceDomains(data, offset, count, version)
""","""				indoms, verr = readInstanceDomains(data, offset, count, version)
"""),("mmvdump/mmvdump.go","""				metrics, merr = readMetrics(data, offset, count, version)
""","""				metrics, verr = readMetrics(data, offset, count, version)
""")]
pkg="mmvdump"
demo='''
package mmvdump_test

import (
	"io/ioutil"
	"testing"

	"github.com/performancecopilot/speed/v4/mmvdump"
)

func TestDemo(t *testing.T) {
	b, err := ioutil.ReadFile("testdata/test1.mmv")
	if err != nil {
		t.Fatal(err)
	}
	for i := 40; i < 200; i += 16 {
		if b[i] == 4 { // the values section is moved behind the end
			b[i+12] = 1
			break
		}
	}
	for i := 0; i < 2000; i++ {
		if _, _, _, _, _, _, _, err := mmvdump.Dump(b); err == nil {
			t.Fatal("a file without its values is accepted")
		}
	}
}
'''
