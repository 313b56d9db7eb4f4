// Package time stands in for the standard library's time in simulated code: the clock is the
// simulator's, everything else is the real package.
package time

import (
	realtime "time"
)

type (
	Time       = realtime.Time
	Duration   = realtime.Duration
	Month      = realtime.Month
	Weekday    = realtime.Weekday
	Location   = realtime.Location
	ParseError = realtime.ParseError
)

const (
	Nanosecond  = realtime.Nanosecond
	Microsecond = realtime.Microsecond
	Millisecond = realtime.Millisecond
	Second      = realtime.Second
	Minute      = realtime.Minute
	Hour        = realtime.Hour

	January   = realtime.January
	February  = realtime.February
	March     = realtime.March
	April     = realtime.April
	May       = realtime.May
	June      = realtime.June
	July      = realtime.July
	August    = realtime.August
	September = realtime.September
	October   = realtime.October
	November  = realtime.November
	December  = realtime.December

	Sunday    = realtime.Sunday
	Monday    = realtime.Monday
	Tuesday   = realtime.Tuesday
	Wednesday = realtime.Wednesday
	Thursday  = realtime.Thursday
	Friday    = realtime.Friday
	Saturday  = realtime.Saturday

	Layout      = realtime.Layout
	ANSIC       = realtime.ANSIC
	UnixDate    = realtime.UnixDate
	RubyDate    = realtime.RubyDate
	RFC822      = realtime.RFC822
	RFC822Z     = realtime.RFC822Z
	RFC850      = realtime.RFC850
	RFC1123     = realtime.RFC1123
	RFC1123Z    = realtime.RFC1123Z
	RFC3339     = realtime.RFC3339
	RFC3339Nano = realtime.RFC3339Nano
	Kitchen     = realtime.Kitchen
	Stamp       = realtime.Stamp
	StampMilli  = realtime.StampMilli
	StampMicro  = realtime.StampMicro
	StampNano   = realtime.StampNano
	DateTime    = realtime.DateTime
	DateOnly    = realtime.DateOnly
	TimeOnly    = realtime.TimeOnly
)

// The simulated local time zone is UTC.
var (
	UTC   = realtime.UTC
	Local = realtime.UTC
)

// Clock is the simulated wall clock. Every reading advances it by Step; Jumps holds further offsets
// that are added one per reading (clock steps by an NTP daemon or an operator, in either direction).
var Clock struct {
	Now   realtime.Time
	Step  realtime.Duration
	Jumps []realtime.Duration
	Reads int
	Log   []realtime.Time // the last readings
}

// SetClock starts the simulated clock.
func SetClock(now realtime.Time, step realtime.Duration, jumps []realtime.Duration) {
	Clock.Now, Clock.Step, Clock.Jumps, Clock.Reads, Clock.Log = now, step, jumps, 0, nil
}

//go:norace
func Now() Time {
	t := Clock.Now
	Clock.Reads++
	if len(Clock.Log) >= 64 {
		Clock.Log = Clock.Log[32:]
	}
	Clock.Log = append(Clock.Log, t)
	Clock.Now = Clock.Now.Add(Clock.Step)
	if len(Clock.Jumps) > 0 {
		Clock.Now = Clock.Now.Add(Clock.Jumps[0])
		Clock.Jumps = Clock.Jumps[1:]
	}
	return t
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

// Sleep advances the simulated clock.
//
//go:norace
func Sleep(d Duration) {
	if d > 0 {
		Clock.Now = Clock.Now.Add(d)
	}
}

// After fires at once, having advanced the simulated clock.
func After(d Duration) <-chan Time {
	Sleep(d)
	c := make(chan Time, 1)
	c <- Now()
	return c
}

func Date(year int, month Month, day, hour, min, sec, nsec int, loc *Location) Time {
	return realtime.Date(year, month, day, hour, min, sec, nsec, loc)
}
func Unix(sec, nsec int64) Time                   { return realtime.Unix(sec, nsec).UTC() }
func UnixMilli(msec int64) Time                   { return realtime.UnixMilli(msec).UTC() }
func UnixMicro(usec int64) Time                   { return realtime.UnixMicro(usec).UTC() }
func Parse(layout, value string) (Time, error)    { return realtime.Parse(layout, value) }
func ParseDuration(s string) (Duration, error)    { return realtime.ParseDuration(s) }
func FixedZone(name string, offset int) *Location { return realtime.FixedZone(name, offset) }
func LoadLocation(name string) (*Location, error) { return realtime.LoadLocation(name) }
func ParseInLocation(layout, value string, loc *Location) (Time, error) {
	return realtime.ParseInLocation(layout, value, loc)
}
