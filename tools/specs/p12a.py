id="p12-typed-nil-writer"; prop="P12"
needs="a file operation of a start fails (the directory cannot be made, for instance), then the client is stopped"
breaks="After a failed start the client does not count as stopped: stopping it crashes."
edits=[("client.go","""	writer, err := bytewriter.NewMemoryMappedWriter(c.loc, l)
	if err != nil {""","""	var err error
	c.writer, err = bytewriter.NewMemoryMappedWriter(c.loc, l)
	if err != nil {"""),("client.go","""	c.writer = writer

""","")]
demo='''
package speed_test

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	// a file is where the directory should be
	if err := ioutil.WriteFile(filepath.Join(os.TempDir(), "mmv"), nil, 0600); err != nil {
		t.Fatal(err)
	}
	if c.Start() == nil {
		t.Fatal("start succeeds")
	}
	if c.Stop() == nil {
		t.Fatal("a client that could not be started can be stopped")
	}
}
'''
