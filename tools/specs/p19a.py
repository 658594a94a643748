id="p19-has-metric-unlocked"; prop="P19"
needs="a question for a metric concurrent with a registration"
breaks="The map of metrics is read without the lock."
edits=[("registry.go","""func (r *PCPRegistry) HasMetric(name string) bool {
	r.metricslock.RLock()
	defer r.metricslock.RUnlock()
""","""func (r *PCPRegistry) HasMetric(name string) bool {
	if r.MetricCount() == 0 {
		return false
	}
""")]
race=True
demo='''
package speed_test

import (
	"fmt"
	"sync"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	r := speed.NewPCPRegistry()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 2000; i++ {
			m, _ := speed.NewPCPCounter(0, fmt.Sprint("m", i))
			_ = r.AddMetric(m)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 20000; i++ {
			r.HasMetric("m7")
		}
	}()
	wg.Wait()
}
'''
