id="p20-handle-of-erased-file"; prop="P20"
needs="a client is stopped with erasing switched on"
breaks="The handle of the file stays open when the file is erased."
edits=[("bytewriter/memorymappedwriter.go","""	// whatever fails, the rest is still to be released
	if err := b.handle.Close(); uerr == nil {
		uerr = err
	}

	if removefile {
		if err := os.Remove(b.loc); err != nil {
			return err
		}
	}

	return uerr
""","""	if removefile {
		if err := os.Remove(b.loc); uerr == nil {
			uerr = err
		}
		return uerr
	}

	if err := b.handle.Close(); uerr == nil {
		uerr = err
	}

	return uerr
""")]
demo='''
package speed_test

import (
	"io/ioutil"
	"runtime/debug"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	debug.SetGCPercent(-1) // finalizers would close the files
	speed.EraseFileOnStop = true
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	count := func() int {
		l, err := ioutil.ReadDir("/proc/self/fd")
		if err != nil {
			t.Fatal(err)
		}
		return len(l)
	}
	c.MustStart()
	c.MustStop()
	n := count()
	for i := 0; i < 50; i++ {
		c.MustStart()
		c.MustStop()
	}
	if count() > n+10 {
		t.Fatalf("%d open files, then %d", n, count())
	}
}
'''
