// Package vtime stands in for time with a clock of its own.
package vtime

import "time"

type (
	Duration = time.Duration
	Month    = time.Month
	Weekday  = time.Weekday
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	RFC1123     = time.RFC1123
	RFC822      = time.RFC822
	UnixDate    = time.UnixDate
	ANSIC       = time.ANSIC
	Kitchen     = time.Kitchen
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
	Stamp       = time.Stamp
)

// Clock is the time in seconds.
var Clock int64

// Time is an instant, in seconds and nanoseconds since 1970.
type Time struct{ s, n int64 }

func Now() Time               { return Time{Clock, 0} }
func Unix(s, n int64) Time    { return Time{s, n} }
func UnixMilli(ms int64) Time { return Time{ms / 1000, ms % 1000 * 1e6} }
func Since(t Time) Duration   { return Now().Sub(t) }
func Until(t Time) Duration   { return t.Sub(Now()) }
func UnixMicro(us int64) Time { return Time{us / 1e6, us % 1e6 * 1e3} }
func Sleep(d Duration)        { Clock += int64(d / Second) }

func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }

const most = 1 << 33 // seconds in the longest duration, roughly

func (t Time) Unix() int64      { return t.s }
func (t Time) UnixMilli() int64 { return t.s*1000 + t.n/1e6 }
func (t Time) UnixNano() int64  { return t.s*1e9 + t.n }
func (t Time) IsZero() bool     { return t.s == -62135596800 && t.n == 0 }
func (t Time) UTC() Time        { return t }
func (t Time) Local() Time      { return t }
func (t Time) Sub(u Time) Duration {
	d := t.s - u.s
	switch {
	case t.s > 0 && u.s < 0 && d < 0, d > most:
		return 1<<63 - 1
	case t.s < 0 && u.s > 0 && d > 0, d < -most:
		return -1 << 63
	}
	return Duration(d*1e9 + t.n - u.n)
}
func (t Time) Add(d Duration) Time { return Time{t.s + int64(d)/1e9, t.n + int64(d)%1e9} }
func (t Time) After(u Time) bool   { return t.s > u.s || t.s == u.s && t.n > u.n }
func (t Time) Before(u Time) bool  { return u.After(t) }
func (t Time) Equal(u Time) bool   { return t == u }
func (t Time) Compare(u Time) int {
	switch {
	case t.After(u):
		return 1
	case u.After(t):
		return -1
	}
	return 0
}

// Format writes the time in UTC.
func (t Time) Format(layout string) string { return time.Unix(t.s, t.n).UTC().Format(layout) }
func (t Time) String() string              { return t.Format("2006-01-02 15:04:05 +0000 UTC") }
func (t Time) Nanosecond() int             { return int(t.n) }
func (t Time) UnixMicro() int64            { return t.s*1e6 + t.n/1e3 }

// Round and Truncate know whole seconds.
func (t Time) Truncate(d Duration) Time {
	if d == Second {
		return Time{t.s, 0}
	}
	return t
}
func (t Time) Round(d Duration) Time { return t.Truncate(d) }
