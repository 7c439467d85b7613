package main

import (
	"dverif/pbt"
	"dverif/pstruct"
	"dverif/sim"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C04",
		Rule: "histories of adding and taking requests of random kinds, with repeated ids, against a reference list; and parallel histories; one real engine whose works are ended by scripted leaders, against a reference scheduler; non-trivial: requests of both kinds waited together, a duplicate was added, several routines were at work, or a work was waiting when another ended",
		Props: []*pbt.Prop{
			{Name: "queue", Fn: pstruct.QueueModel, Quick: 8000, Thorough: 400000},
			{Name: "queue-concurrent", Fn: pstruct.QueueConcurrent, Quick: 200, Thorough: 5000},
			{Name: "engine-order", Fn: sim.EngineOrder, Quick: 600, Thorough: 30000},
		},
	})
}
