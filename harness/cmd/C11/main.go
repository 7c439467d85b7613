package main

import (
	"dverif/pbt"
	"dverif/sim"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C11",
		Rule: "one real engine gets forged copies of each kind of message (nothing may happen) and then the genuine one by any member (its effect has to be seen); and whole committees do healthy works while every message is accompanied by forged copies or passed on by others, all outgoing signatures being verified; non-trivial: forged copies were delivered and the genuine message took effect",
		Props: []*pbt.Prop{
			{Name: "forged", Fn: sim.Forged, Quick: 800, Thorough: 60000},
			{Name: "storm-presigned", Fn: sim.ForgedStorm(sim.EcPresigned), Quick: 100, Thorough: 5000, Procs: 16},
			{Name: "storm-eddsa", Fn: sim.ForgedStorm(sim.EdSigning), Quick: 30, Thorough: 2000, Procs: 16},
			{Name: "storm-eddsa-keygen", Fn: sim.ForgedStorm(sim.EdKeygenP), Quick: 16, Thorough: 1000, Procs: 16},
		},
	})
}
