// worker performs one simulated run per process.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime/debug"

	"verifsim/adapter"
	"verifsim/adapterport"
	"verifsim/props"
	"verifsim/sim"
)

func main() {
	debug.SetMaxStack(128 << 20)
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		sim.Emit(&sim.Result{Err: err.Error()})
	}
	var q sim.Request
	if err := json.Unmarshal(b, &q); err != nil {
		sim.Emit(&sim.Result{Err: err.Error()})
	}
	sim.Procs = sim.Kids{Path: os.Getenv("SIM_WORKER"), Path386: os.Getenv("SIM_WORKER386"), PathRace: os.Getenv("SIM_WORKERRACE")}
	r := sim.NewRun(&q, adapter.New(), adapterport.New())
	if f := os.Getenv("SIM_SITES"); f != "" {
		if sb, err := os.ReadFile(f); err == nil {
			var s struct{ Sites []string }
			json.Unmarshal(sb, &s)
			r.Sites = s.Sites
		}
	}
	f := props.Lookup(q.Mode, q.Prop)
	if f == nil {
		sim.Emit(&sim.Result{Err: fmt.Sprintf("unknown request %s/%s", q.Mode, q.Prop)})
	}
	r.Main(func() { f(r) })
	r.Exit()
}
