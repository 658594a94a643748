id="p26-file-before-turn"; prop="P26"
needs="a client is started while another client with the same registry is active, and a file of its own has been kept by an earlier stop"
breaks="Start makes the file before it asks for the registry and erases it when it is refused, so a refused start of a stopped client destroys the file that its last stop has kept."
edits=[("client.go","""	// from here on nothing can be added to the registry
	if !c.r.setMapped(true) {
		return errors.New("trying to start an already active mapping")
	}

	l := c.Length()

	writer, err := bytewriter.NewMemoryMappedWriter(c.loc, l)
	if err != nil {
		c.r.setMapped(false)
		return errors.Wrap(err, "cannot create MemoryMappedBuffer in client")
	}

	c.writer = writer
""","""	if c.writer != nil {
		return errors.New("trying to start an already active mapping")
	}

	var l int
	writer, err := (*bytewriter.MemoryMappedWriter)(nil), error(nil)

	// something may be registered until the registry is ours
	for {
		l = c.Length()

		writer, err = bytewriter.NewMemoryMappedWriter(c.loc, l)
		if err != nil {
			return errors.Wrap(err, "cannot create MemoryMappedBuffer in client")
		}

		// from here on nothing can be added to the registry
		if !c.r.setMapped(true) {
			_ = writer.Unmap(true)
			return errors.New("trying to start an already active mapping")
		}

		if l == c.Length() {
			break
		}

		c.r.setMapped(false)
		_ = writer.Unmap(true)
	}

	c.writer = writer
""")]
demo='''
package speed_test

import (
	"os"
	"path/filepath"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	speed.EraseFileOnStop = false
	r := speed.NewPCPRegistry()
	a, err := speed.NewPCPClientWithRegistry("a", r)
	if err != nil {
		t.Fatal(err)
	}
	b, err := speed.NewPCPClientWithRegistry("b", r)
	if err != nil {
		t.Fatal(err)
	}
	m, err := speed.NewPCPCounter(1, "one")
	if err != nil {
		t.Fatal(err)
	}
	a.MustRegister(m)
	a.MustStart()
	a.MustStop()
	b.MustStart()
	if a.Start() == nil {
		t.Fatal("both clients are active")
	}
	if _, err := os.Stat(filepath.Join(os.TempDir(), "mmv", "a")); err != nil {
		t.Fatal(err)
	}
}
'''
