id="p10-indom-while-active"; prop="P10"
needs="an instance domain is registered while the client is active"
breaks="The registration succeeds although the file is already published, the instance domain is missing from it."
edits=[("registry.go","""	if r.mapped {
		return errors.New("Cannot add an indom when a mapping is active")
	}

	r.instanceDomains[indom""","""	if r.mapped && len(r.instanceDomains) == 0 {
		return errors.New("Cannot add an indom when a mapping is active")
	}

	r.instanceDomains[indom""")]
needs="an instance domain is registered while the client is active and has an instance domain already"
demo='''
package speed_test

import (
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := c.Registry().AddInstanceDomainByName("a", []string{"x"}); err != nil {
		t.Fatal(err)
	}
	c.MustStart()
	defer c.MustStop()
	if _, err := c.Registry().AddInstanceDomainByName("b", []string{"x"}); err == nil {
		t.Fatal("an instance domain is added to an active client")
	}
}
'''
