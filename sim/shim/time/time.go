// Package time replaces the standard package in instrumented code.
package time

import (
	rt "time"

	"verif/sim/vsim"
)

// Definitions of the standard package.
const (
	ANSIC       = rt.ANSIC
	April       = rt.April
	August      = rt.August
	DateOnly    = rt.DateOnly
	DateTime    = rt.DateTime
	December    = rt.December
	February    = rt.February
	Friday      = rt.Friday
	Hour        = rt.Hour
	January     = rt.January
	July        = rt.July
	June        = rt.June
	Kitchen     = rt.Kitchen
	Layout      = rt.Layout
	March       = rt.March
	May         = rt.May
	Microsecond = rt.Microsecond
	Millisecond = rt.Millisecond
	Minute      = rt.Minute
	Monday      = rt.Monday
	Nanosecond  = rt.Nanosecond
	November    = rt.November
	October     = rt.October
	RFC1123     = rt.RFC1123
	RFC1123Z    = rt.RFC1123Z
	RFC3339     = rt.RFC3339
	RFC3339Nano = rt.RFC3339Nano
	RFC822      = rt.RFC822
	RFC822Z     = rt.RFC822Z
	RFC850      = rt.RFC850
	RubyDate    = rt.RubyDate
	Saturday    = rt.Saturday
	Second      = rt.Second
	September   = rt.September
	Stamp       = rt.Stamp
	StampMicro  = rt.StampMicro
	StampMilli  = rt.StampMilli
	StampNano   = rt.StampNano
	Sunday      = rt.Sunday
	Thursday    = rt.Thursday
	TimeOnly    = rt.TimeOnly
	Tuesday     = rt.Tuesday
	UnixDate    = rt.UnixDate
	Wednesday   = rt.Wednesday
)

type (
	// Duration is the standard type.
	Duration = rt.Duration
	// Location is the standard type.
	Location = rt.Location
	// Month is the standard type.
	Month = rt.Month
	// ParseError is the standard type.
	ParseError = rt.ParseError
	// Time is the standard type.
	Time = rt.Time
	// Weekday is the standard type.
	Weekday = rt.Weekday
)

// Definitions of the standard package.
var (
	Local           = rt.Local
	UTC             = rt.UTC
	Date            = rt.Date
	FixedZone       = rt.FixedZone
	LoadLocation    = rt.LoadLocation
	Parse           = rt.Parse
	ParseDuration   = rt.ParseDuration
	ParseInLocation = rt.ParseInLocation
	Unix            = rt.Unix
	UnixMicro       = rt.UnixMicro
	UnixMilli       = rt.UnixMilli
)

// Now is the simulated time.
func Now() Time { return vsim.Now() }

// Since is the standard function.
func Since(t Time) Duration { return Now().Sub(t) }

// Until is the standard function.
func Until(t Time) Duration { return t.Sub(Now()) }

// Sleep waits in simulated time.
func Sleep(d Duration) {
	if w := vsim.Active(); w != nil {
		w.Sleep(int64(d))
	}
}

// Timer is the standard type in simulated time.
type Timer struct {
	C <-chan Time
	c chan Time
	t *vsim.Timer
	f func()
	p int64
}

func (t *Timer) arm(d Duration) {
	w := vsim.Active()
	if w == nil {
		return
	}
	t.t = w.After(int64(d), func() { t.fire(w) })
}

func (t *Timer) fire(w *vsim.World) {
	if t.f != nil {
		w.SpawnLib("timer", t.f)
		return
	}
	vsim.TimerSend(w, t.c, vsim.MakeTime(w.WallNanos(), w.Mono()))
	if t.p > 0 {
		t.t = w.After(t.p, func() { t.fire(w) })
	}
}

// Stop is the standard method.
func (t *Timer) Stop() bool {
	w := vsim.Active()
	if w == nil || t.t == nil {
		return false
	}
	w.Point(1)
	return w.StopTimer(t.t)
}

// Reset is the standard method.
func (t *Timer) Reset(d Duration) bool {
	r := t.Stop()
	t.arm(d)
	return r
}

// NewTimer is the standard function.
func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

// AfterFunc is the standard function.
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

// After is the standard function.
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Ticker is the standard type in simulated time.
type Ticker struct {
	C <-chan Time
	t *Timer
}

// NewTicker is the standard function.
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c, p: int64(d)}
	t.arm(d)
	return &Ticker{C: c, t: t}
}

// Stop is the standard method.
func (t *Ticker) Stop() { t.t.Stop() }

// Reset is the standard method.
func (t *Ticker) Reset(d Duration) { t.t.p = int64(d); t.t.Reset(d) }

// Tick is the standard function.
func Tick(d Duration) <-chan Time { return NewTicker(d).C }
