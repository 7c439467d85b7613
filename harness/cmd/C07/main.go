package main

import (
	"dverif/pbt"
	"dverif/sim"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:    "C07",
		Rule:  "real engines of a committee over a simulated network that reorders, delays, duplicates and slows sends of chosen messages; every node must succeed (or not be selected) well before any time limit could end the work; non-trivial: at least one fault rule besides the random jitter",
		Known: []*pbt.KnownCase{{ID: "eddsa-leading-zero", Fn: sim.LeadingZero}, {ID: "ecdsa-zero-message", Fn: sim.ZeroMessage}},
		Props: []*pbt.Prop{
			{Name: "eddsa-signing", Fn: sim.Survive(sim.EdSigning), Quick: 60, Thorough: 5000, Procs: 16},
			{Name: "ecdsa-presigned", Fn: sim.Survive(sim.EcPresigned), Quick: 150, Thorough: 5000, Procs: 16},
			{Name: "eddsa-keygen", Fn: sim.Survive(sim.EdKeygenP), Quick: 40, Thorough: 5000, Procs: 16},
			{Name: "slow-sends", Fn: sim.SlowSends, Quick: 10, Thorough: 500, Procs: 5},
			{Name: "one-slow", Fn: sim.OneSlow, Quick: 60, Thorough: 5000, Procs: 16},
			{Name: "ecdsa-signing", Fn: sim.Survive(sim.EcSigningP), Quick: 10, Thorough: 500, Procs: 8},
			{Name: "ecdsa-keygen", Fn: sim.Survive(sim.EcKeygenP), Quick: 6, Thorough: 300, Procs: 8},
		},
	})
}
