// Command engine: symbolic execution of the Go code under test, decided by an SMT solver.
package main

import (
	"os"
	"runtime/debug"
	"runtime/pprof"
)

func main() {
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(10 << 30)
	rc := func() int {
		if f := os.Getenv("GOSYM_PROF"); f != "" {
			if w, err := os.Create(f); err == nil {
				pprof.StartCPUProfile(w)
				defer pprof.StopCPUProfile()
			}
		}
		return cli(os.Args[1:])
	}()
	os.Exit(rc)
}
