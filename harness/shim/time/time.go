// Package time stands in for time in instrumented copies: sleeping is just letting others run.
package time

import real "time"

type Duration = real.Duration
type Time = real.Time

const (
	Nanosecond  = real.Nanosecond
	Microsecond = real.Microsecond
	Millisecond = real.Millisecond
	Second      = real.Second
	Minute      = real.Minute
	Hour        = real.Hour
)

func Sleep(Duration)        {}
func Now() Time             { return real.Now() }
func Since(t Time) Duration { return real.Since(t) }
