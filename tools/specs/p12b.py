id="p12-truncate"; prop="P12"
needs="the file system has no room for the file (here: a limit for the size of files), after the start of the write has succeeded"
breaks="A start that could write only a part of the file goes on, and the process dies when it touches the part of the mapping that has no file behind it."
edits=[("bytewriter/memorymappedwriter.go","""	l, err := f.Write(make([]byte, size))
	if err != nil {
		cleanup()
		return nil, err
	}
	if l < size {
""","""	l, err := f.Write(make([]byte, size))
	if err != nil && l == 0 {
		cleanup()
		return nil, err
	}
	if l < 1 {
""")]
demo='''
package speed_test

import (
	"fmt"
	"os/signal"
	"syscall"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	signal.Ignore(syscall.SIGXFSZ)
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 500; i++ {
		m, err := speed.NewPCPCounter(1, fmt.Sprint("m.", i))
		if err != nil {
			t.Fatal(err)
		}
		c.MustRegister(m)
	}
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		t.Fatal(err)
	}
	lim := old
	lim.Cur = 8192
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		t.Fatal(err)
	}
	if c.Start() == nil {
		t.Fatal("start succeeds although there is no room for the file")
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		t.Fatal(err)
	}
	c.MustStart()
	c.MustStop()
}
'''
