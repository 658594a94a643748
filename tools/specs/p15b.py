id='p15-remove-directory'; prop='P15'
needs='one client stops and finds the directory empty just before another one creates its file'
breaks='Stopping removes the directory when it is empty, along with the file that another client has just made, or the start of the other client fails.'
edits=[('bytewriter/memorymappedwriter.go','''import (
''','''import (
	"io/ioutil"
'''),
('bytewriter/memorymappedwriter.go',"""		if err := os.Remove(b.loc); err != nil {
			return err
		}
""","""		if err := os.Remove(b.loc); err != nil {
			return err
		}

		// leave nothing behind
		dir := filepath.Dir(b.loc)
		if others, err := ioutil.ReadDir(dir); err == nil && len(others) == 0 {
			_ = os.RemoveAll(dir)
		}
""")]
demo=r'''
package speed_test

import (
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	speed.EraseFileOnStop = true
	a, err := speed.NewPCPClient("demoa")
	if err != nil {
		t.Fatal(err)
	}
	b, err := speed.NewPCPClient("demob")
	if err != nil {
		t.Fatal(err)
	}
	i := 0
	for end := time.Now().Add(40 * time.Second); time.Now().Before(end); i++ {
		a.MustStart()
		var wg sync.WaitGroup
		var ready int32
		wg.Add(1)
		go func() {
			defer wg.Done()
			atomic.AddInt32(&ready, 1)
			for atomic.LoadInt32(&ready) < 2 {
			}
			for k := 0; k < i%256*64; k++ {
				atomic.LoadInt32(&ready)
			}
			a.MustStop()
		}()
		atomic.AddInt32(&ready, 1)
		for atomic.LoadInt32(&ready) < 2 {
		}
		for k := 0; k < i/256%256*64; k++ {
			atomic.LoadInt32(&ready)
		}
		err := b.Start()
		wg.Wait()
		if err != nil {
			t.Fatalf("after %d rounds: %v", i, err)
		}
		if _, err := os.Stat(filepath.Join(os.TempDir(), "mmv", "demob")); err != nil {
			t.Fatalf("after %d rounds: %v", i, err)
		}
		b.MustStop()
	}
}
'''
