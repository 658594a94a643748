id='p14-lock-file'; prop='P14'
needs='a process that dies while its client is active, and a new process that starts the same client'
breaks='A lock file that only Stop removes keeps the client of the next process from starting.'
edits=[('bytewriter/memorymappedwriter.go',"""	if _, err := os.Stat(loc); err == nil {
""","""	// one writer for a location
	if err := os.MkdirAll(filepath.Dir(loc), 0700); err != nil {
		return nil, err
	}
	lock, err := os.OpenFile(loc+".lock", os.O_CREATE|os.O_RDWR|os.O_EXCL, 0600)
	if err != nil {
		return nil, err
	}
	_ = lock.Close()
	made := false
	defer func() {
		if !made {
			_ = os.Remove(loc + ".lock")
		}
	}()

	if _, err := os.Stat(loc); err == nil {
"""),
('bytewriter/memorymappedwriter.go',"""	err := os.MkdirAll(dir, 0700)
""","""	err = os.MkdirAll(dir, 0700)
"""),
('bytewriter/memorymappedwriter.go',"""	return &MemoryMappedWriter{
		NewByteWriterSlice(b),
""","""	made = true
	return &MemoryMappedWriter{
		NewByteWriterSlice(b),
"""),
('bytewriter/memorymappedwriter.go',"""	if removefile {
""","""	_ = os.Remove(b.loc + ".lock")

	if removefile {
""")]
demo=r'''
package speed_test

import (
	"os"
	"os/exec"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	if os.Getenv("DEMO_CHILD") != "" {
		c.MustStart()
		os.Exit(0) // dies without stopping
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	cmd.Env = append(os.Environ(), "DEMO_CHILD=1")
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("%v %s", err, out)
	}
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	c.MustStop()
}
'''
