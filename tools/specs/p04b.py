id="p04-halves"; prop="P04"
needs="an outside reader, or the death of the process, between the two writes of an update of a 64 bit value"
breaks="The halves of 64 bit values are written one after the other: a reader sees mixtures of two values."
edits=[("metrics.go","""		_, err := writer.WriteVal(val, offset)
		return err
	}
}
""","""		if v, ok := val.(uint64); ok {
			off, err := writer.WriteUint32(uint32(v), offset)
			if err == nil {
				_, err = writer.WriteUint32(uint32(v>>32), off)
			}
			return err
		}

		_, err := writer.WriteVal(val, offset)
		return err
	}
}
""")]
demo='''
package speed_test

import (
	"encoding/binary"
	"os"
	"path/filepath"
	"sync/atomic"
	"testing"
	"time"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	a, z := uint64(0x1111111122222222), uint64(0x3333333344444444)
	m := c.MustRegisterString("a", a, speed.Uint64Type, speed.InstantSemantics, speed.OneUnit).(speed.SingletonMetric)
	c.MustStart()
	defer c.MustStop()
	f, err := os.Open(filepath.Join(os.TempDir(), "mmv", "demo"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	st, _ := f.Stat()
	var stop int32
	done := make(chan bool)
	go func() {
		for atomic.LoadInt32(&stop) == 0 {
			m.MustSet(z)
			m.MustSet(a)
		}
		done <- true
	}()
	b := make([]byte, 8)
	bad := uint64(0)
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end) && bad == 0; {
		if _, err := f.ReadAt(b, st.Size()-32); err != nil {
			t.Fatal(err)
		}
		if v := binary.LittleEndian.Uint64(b); v != a && v != z {
			bad = v
		}
	}
	atomic.StoreInt32(&stop, 1)
	<-done
	if bad != 0 {
		t.Fatalf("the value %x is seen, the metric never had it", bad)
	}
}
'''
