id="p25-erase-unchecked"; prop="P25"
needs="erasing the file at a stop fails"
breaks="The stop reports success although the file it should erase could not be erased."
edits=[("bytewriter/memorymappedwriter.go","""		if err := os.Remove(b.loc); err != nil {
			return err
		}
	}

	return uerr""","""		defer os.Remove(b.loc)
	}

	return uerr""")]
demo='''
package speed_test

import (
	"os"
	"path/filepath"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	speed.EraseFileOnStop = true
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	c.MustStart()
	f := filepath.Join(os.TempDir(), "mmv", "demo")
	if err := os.Remove(f); err != nil {
		t.Fatal(err)
	}
	// it cannot be erased now
	if err := os.MkdirAll(filepath.Join(f, "d"), 0700); err != nil {
		t.Fatal(err)
	}
	if c.Stop() == nil {
		t.Fatal("stop succeeds")
	}
}
'''
