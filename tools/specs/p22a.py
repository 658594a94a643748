id="p22-capacity"; prop="P22"
needs="a writer on a part of a bigger slice"
breaks="The writer takes the memory behind its slice for a part of its block and overwrites it."
edits=[("bytewriter/bytewriter.go","""	return &ByteWriter{buffer}
""","""	return &ByteWriter{buffer[:cap(buffer)]}
""")]
pkg="bytewriter"
demo='''
package bytewriter_test

import (
	"testing"

	"github.com/performancecopilot/speed/v4/bytewriter"
)

func TestDemo(t *testing.T) {
	b := make([]byte, 32)
	w := bytewriter.NewByteWriterSlice(b[:16])
	if _, err := w.WriteUint64(1<<63, 12); err == nil {
		t.Fatal("a write that leaves the block is accepted")
	}
	for i, x := range b {
		if x != 0 {
			t.Fatalf("byte %d is changed", i)
		}
	}
}
'''
