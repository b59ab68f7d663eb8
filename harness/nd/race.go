//go:build race

package nd

import "runtime"

// The hand-overs of the scheduler are hidden from the race detector: they would order everything.
func raceHide() { runtime.RaceDisable() }
func raceShow() { runtime.RaceEnable() }
