id="p22-pooled-buffer"; prop="P22"
needs="two concurrent writes, the second one encoding into the pooled buffer between the giving back and the writing of the first"
breaks="A write stores the bytes of another, concurrent write."
edits=[("bytewriter/bytewriter.go","""	buf := bytes.NewBuffer(make([]byte, 0))

	err := binary.Write(buf, byteOrder, val)
	if err != nil {
		return 0, err
	}

	return w.Write(buf.Bytes(), offset)
""","""	data, err := encode(val)
	if err != nil {
		return 0, err
	}

	return w.Write(data, offset)
"""),("bytewriter/bytewriter.go","""// WriteVal writes an arbitrary value to the buffer
""","""// buffers are used again
var buffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

func encode(val interface{}) ([]byte, error) {
	buf := buffers.Get().(*bytes.Buffer)
	defer buffers.Put(buf)

	buf.Reset()
	if err := binary.Write(buf, byteOrder, val); err != nil {
		return nil, err
	}

	return buf.Bytes(), nil
}

// WriteVal writes an arbitrary value to the buffer
"""),("bytewriter/bytewriter.go","""	"encoding/binary"
""","""	"encoding/binary"
	"sync"
""")]
pkg="bytewriter"
demo='''
package bytewriter_test

import (
	"encoding/binary"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/performancecopilot/speed/v4/bytewriter"
)

func TestDemo(t *testing.T) {
	w := bytewriter.NewByteWriter(64 * 8)
	end := time.Now().Add(60 * time.Second)
	var bad int32
	var wg sync.WaitGroup
	for g := 0; g < 64; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; time.Now().Before(end) && atomic.LoadInt32(&bad) == 0; i++ {
				v := uint64(g)<<32 | uint64(i)&0xffffffff
				w.MustWriteUint64(v, g*8)
				if binary.LittleEndian.Uint64(w.Bytes()[g*8:]) != v {
					atomic.StoreInt32(&bad, 1)
				}
				if i%100 == 0 {
					runtime.Gosched()
				}
			}
		}(g)
	}
	wg.Wait()
	if bad != 0 {
		t.Fatal("the bytes of another write are stored")
	}
}
'''
