id="p02-long-text-without-short"; prop="P02"
needs="an instance domain with a long help text and an empty short one"
breaks="The long help text of an instance domain without a short one is counted but never written to the file."
edits=[("client.go","""		c.writer.MustWriteString(indom.shortDescription, so)
	}

	if indom.longDescription != "" {
		lo = <-c.stringoffsetc
		c.stringoffsetc <- lo + StringLength

		c.writer.MustWriteString(indom.longDescription, lo)
	}
""","""		c.writer.MustWriteString(indom.shortDescription, so)

		if indom.longDescription != "" {
			lo = <-c.stringoffsetc
			c.stringoffsetc <- lo + StringLength

			c.writer.MustWriteString(indom.longDescription, lo)
		}
	}
""")]
demo='''
package speed_test

import (
	"bytes"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	d, err := speed.NewPCPInstanceDomain("d", []string{"a", "b"}, "", "only the long text")
	if err != nil {
		t.Fatal(err)
	}
	c.MustRegisterIndom(d)
	c.MustStart()
	defer c.MustStop()
	b, err := ioutil.ReadFile(filepath.Join(os.TempDir(), "mmv", "demo"))
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Contains(b, []byte("only the long text")) {
		t.Fatal("the long help text is not in the file")
	}
}
'''
