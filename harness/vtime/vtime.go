// Package vtime stands in for time.Now in the code under test: the harness decides what time it is.
package vtime

import "time"

var (
	Sec  int64 = 1700000000
	Nsec int64
)

// Set moves the clock.
func Set(sec, nsec int64) { Sec, Nsec = sec, nsec }

// Now is the clock of the code under test.
func Now() time.Time { return time.Unix(Sec, Nsec).UTC() }

// Since and Until follow Now.
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
