id="p20-dump-readers-left"; prop="P20"
needs="dumping a file of which a section does not fit"
breaks="The dump returns at the first section that fails, the goroutines reading the other sections can never deliver their results and stay for ever."
edits=[("mmvdump/mmvdump.go","""	var wg sync.WaitGroup
	wg.Add(len(tocs))

	for _, toc := range tocs {
		switch toc.Type {
		case TocInstances:
			go func(offset uint64, count int32) {
				instances, ierr = readInstances(data, offset, count, version)
				wg.Done()
""","""	done := make(chan error)

	for _, toc := range tocs {
		switch toc.Type {
		case TocInstances:
			go func(offset uint64, count int32) {
				var err error
				instances, err = readInstances(data, offset, count, version)
				done <- err
"""),("mmvdump/mmvdump.go","""				indoms, inerr = readInstanceDomains(data, offset, count, version)
				wg.Done()
""","""				var err error
				indoms, err = readInstanceDomains(data, offset, count, version)
				done <- err
"""),("mmvdump/mmvdump.go","""				metrics, merr = readMetrics(data, offset, count, version)
				wg.Done()
""","""				var err error
				metrics, err = readMetrics(data, offset, count, version)
				done <- err
"""),("mmvdump/mmvdump.go","""				values, verr = readValues(data, offset, count, version)
				wg.Done()
""","""				var err error
				values, err = readValues(data, offset, count, version)
				done <- err
"""),("mmvdump/mmvdump.go","""				strings, serr = readStrings(data, offset, count, version)
				wg.Done()
			}(toc.Offset, toc.Count)
		}
	}

	wg.Wait()

	return
""","""				var err error
				strings, err = readStrings(data, offset, count, version)
				done <- err
			}(toc.Offset, toc.Count)
		}
	}

	for range tocs {
		if err := <-done; err != nil {
			return nil, nil, nil, nil, nil, err, nil, nil, nil, nil
		}
	}

	return
""")]
pkg="mmvdump"
demo='''
package mmvdump_test

import (
	"io/ioutil"
	"runtime"
	"testing"
	"time"

	"github.com/performancecopilot/speed/v4/mmvdump"
)

func TestDemo(t *testing.T) {
	b, err := ioutil.ReadFile("testdata/test1.mmv")
	if err != nil {
		t.Fatal(err)
	}
	for i := 40; i < 200; i += 16 {
		if b[i] == 4 { // the values section is moved behind the end
			b[i+12] = 1
			break
		}
	}
	n := runtime.NumGoroutine()
	for i := 0; i < 200; i++ {
		if _, _, _, _, _, _, _, err := mmvdump.Dump(b); err == nil {
			t.Fatal("accepted")
		}
	}
	for i := 0; i < 50 && runtime.NumGoroutine() > n+10; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if k := runtime.NumGoroutine(); k > n+10 {
		t.Fatalf("%d goroutines, then %d", n, k)
	}
}
'''
