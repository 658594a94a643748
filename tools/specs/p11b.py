id='p11-second-refusal'; prop='P11'
needs='three starts in a row without a stop'
breaks='The refusal of a start thaws the registry, so that the next start is not refused but replaces the file of the active client.'
edits=[('client.go',"""func (c *PCPClient) Start() error {
	c.mutex.Lock()
	defer c.mutex.Unlock()

	// from here on nothing can be added to the registry
	if !c.r.setMapped(true) {
		return errors.New("trying to start an already active mapping")
	}

	l := c.Length()

	writer, err := bytewriter.NewMemoryMappedWriter(c.loc, l)
	if err != nil {
		c.r.setMapped(false)
		return errors.Wrap(err, "cannot create MemoryMappedBuffer in client")
	}
""","""func (c *PCPClient) Start() (err error) {
	c.mutex.Lock()
	defer c.mutex.Unlock()

	defer func() {
		if err != nil {
			c.r.setMapped(false)
		}
	}()

	// from here on nothing can be added to the registry
	if !c.r.setMapped(true) {
		return errors.New("trying to start an already active mapping")
	}

	l := c.Length()

	writer, err := bytewriter.NewMemoryMappedWriter(c.loc, l)
	if err != nil {
		return errors.Wrap(err, "cannot create MemoryMappedBuffer in client")
	}
""")]
demo=r'''
package speed_test

import (
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	c, err := speed.NewPCPClient("demo")
	if err != nil {
		t.Fatal(err)
	}
	c.MustStart()
	for i := 0; i < 3; i++ {
		if c.Start() == nil {
			t.Fatal("an active client was started")
		}
	}
	c.MustStop()
}
'''
