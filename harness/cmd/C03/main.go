package main

import (
	"dverif/pbt"
	"dverif/sim"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C03",
		Rule: "committees of 1-4 real engines run up to five keygens and signings while messages are dropped, delayed, duplicated, altered by their sender, or their sends hang or fail, nodes are offline, and requests are odd (missing or foreign keys, impossible thresholds, other parties, empty messages) or repeated: each accepted request has to end in one outcome in time, slots are free again, and a later signing without faults succeeds; non-trivial: with at least one fault or odd request",
		Props: []*pbt.Prop{
			{Name: "outcomes", Fn: sim.Outcomes(""), Quick: 160, Thorough: 8000, Procs: 24},
			{Name: "ecdsa-outcomes", Fn: sim.Outcomes("ecdsa"), Quick: 6, Thorough: 300, Procs: 6},
		},
	})
}
