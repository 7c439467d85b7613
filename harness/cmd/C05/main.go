package main

import (
	"dverif/pbt"
	"dverif/sim"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C05",
		Rule: "one real engine among scripted leaders that end works at chosen moments, requests added by several routines at once (count of running works from the engine and from what it sends), and sequential histories against a reference scheduler with two slots; non-trivial: both slots were in use, or a work was waiting when another ended",
		Props: []*pbt.Prop{
			{Name: "slots-concurrent", Fn: sim.EngineSlots, Quick: 600, Thorough: 30000},
			{Name: "slots-model", Fn: sim.EngineOrder, Quick: 600, Thorough: 30000},
		},
	})
}
