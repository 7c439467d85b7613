package main

import (
	"time"

	"dverif/pbt"
	"dverif/pheart"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C27",
		Rule: "histories of keys (good, altered, unusable, other, concurrent, with a taken port), readiness signals and requests on a real service against a model of the gate; non-trivial: at least one request was refused and one accepted",
		Props: []*pbt.Prop{
			{Name: "gate", Fn: pheart.Gate, Quick: 400, Thorough: 20000, Procs: 8, Recycle: 40, Timeout: 3 * time.Minute},
		},
	})
}
