id="p26-detach-late"; prop="P26"
race=True
needs="a client starts while another client with the same registry is between giving the registry back and detaching the metrics"
breaks="Stop frees the registry before it detaches the metrics, so a client that starts in between has its metrics detached by the stop of the other: updates do not reach its file any more."
edits=[("client.go","""	c.stop()

	err := c.writer.(*bytewriter.MemoryMappedWriter).Unmap(EraseFileOnStop)
	c.writer = nil
	c.r.setMapped(false)
""","""	c.r.setMapped(false)
	c.stop()

	err := c.writer.(*bytewriter.MemoryMappedWriter).Unmap(EraseFileOnStop)
	c.writer = nil
""")]
demo='''
package speed_test

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	speed.EraseFileOnStop = true
	r := speed.NewPCPRegistry()
	a, err := speed.NewPCPClientWithRegistry("a", r)
	if err != nil {
		t.Fatal(err)
	}
	b, err := speed.NewPCPClientWithRegistry("b", r)
	if err != nil {
		t.Fatal(err)
	}
	var ms []speed.SingletonMetric
	for i := 0; i < 20000; i++ {
		m, err := speed.NewPCPSingletonMetric(int64(0), fmt.Sprint("demo.", i), speed.Int64Type, speed.InstantSemantics, speed.OneUnit)
		if err != nil {
			t.Fatal(err)
		}
		r.AddMetric(m)
		ms = append(ms, m)
	}
	for n, end := 0, time.Now().Add(60*time.Second); n < 100 && time.Now().Before(end); n++ {
		a.MustStart()
		done := make(chan error)
		go func() { done <- a.Stop() }()
		for b.Start() != nil {
		}
		if err := <-done; err != nil {
			t.Fatal(err)
		}
		for i, m := range ms {
			m.MustSet(int64(1000000*(n+1) + i))
		}
		f, err := os.ReadFile(filepath.Join(os.TempDir(), "mmv", "b"))
		if err != nil {
			t.Fatal(err)
		}
		seen := map[int64]bool{}
		for i := 0; i+8 <= len(f); i += 8 {
			seen[int64(binary.LittleEndian.Uint64(f[i:]))] = true
		}
		for i := range ms {
			if !seen[int64(1000000*(n+1)+i)] {
				t.Fatalf("run %d: the value of metric %d is not in the file of the active client", n, i)
			}
		}
		b.MustStop()
	}
}
'''
