// Command native replays recorded paths against the real code.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"

	"verif/h"
	"verif/nd"
)

func main() {
	debug.SetMaxStack(64 << 20)
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var c nd.Case
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if len(os.Args) > 2 {
		c.Mode = os.Args[2]
	}
	f := h.Harnesses[c.Harness]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no harness", c.Harness)
		os.Exit(2)
	}
	out := nd.Run(&c, f)
	j, _ := json.Marshal(out)
	fmt.Println(string(j))
}
