id="p04-text-tail"; prop="P04"
needs="an outside reader between the two writes of the update of a text that is shorter than the one before"
breaks="A reader sees the new text followed by the tail of the old one, a text the metric never had."
edits=[("metrics.go","""		if _, isString := val.(string); isString {
			writer.MustWrite(make([]byte, StringLength), offset)
		}

		_, err := writer.WriteVal(val, offset)
		return err
""","""		end, err := writer.WriteVal(val, offset)
		if s, isString := val.(string); isString && err == nil {
			writer.MustWrite(make([]byte, StringLength-len(s)), end)
		}

		return err
""")]
demo='''
package speed_test

import (
	"bytes"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	long, short := strings.Repeat("x", 250), strings.Repeat("y", 20)
	m := c.MustRegisterString("a", long, speed.StringType, speed.InstantSemantics, speed.OneUnit).(speed.SingletonMetric)
	c.MustStart()
	defer c.MustStop()
	f, err := os.Open(filepath.Join(os.TempDir(), "mmv", "demo"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	st, _ := f.Stat()
	var stop int32
	done := make(chan bool)
	go func() {
		for atomic.LoadInt32(&stop) == 0 {
			m.MustSet(short)
			m.MustSet(long)
		}
		done <- true
	}()
	b := make([]byte, 256)
	bad := false
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end) && !bad; {
		if _, err := f.ReadAt(b, st.Size()-256); err != nil {
			t.Fatal(err)
		}
		s := b
		if i := bytes.IndexByte(b, 0); i >= 0 {
			s = b[:i]
		}
		// the reading itself is not atomic, but new text in front of old
		// text at exactly its length is what the writer made
		if string(s) == short+long[20:] {
			bad = true
		}
	}
	atomic.StoreInt32(&stop, 1)
	<-done
	if bad {
		t.Fatal("a text is seen that the metric never had")
	}
}
'''
