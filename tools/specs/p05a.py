id="p05-gauge-vector-inc"; prop="P05"
needs="two concurrent increments of the same instance of a gauge vector, the second reading between the reading and the setting of the first"
breaks="An increment of a gauge vector's instance is lost."
edits=[("metrics.go","""	g.mutex.Lock()
	defer g.mutex.Unlock()

	v, err := g.valInstance(instance)
	if err != nil {
		return err
	}

	return g.setInstance(v.(float64)+inc, instance)
""","""	v, err := g.Val(instance)
	if err != nil {
		return err
	}

	return g.Set(v+inc, instance)
""")]
demo='''
package speed_test

import (
	"sync"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	m, err := speed.NewPCPGaugeVector(map[string]float64{"a": 0}, "m")
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				m.MustInc(1, "a")
			}
		}()
	}
	wg.Wait()
	if v, _ := m.Val("a"); v != 160000 {
		t.Fatalf("160000 increments add up to %v", v)
	}
}
'''
