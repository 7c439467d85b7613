package main

import (
	"dverif/pbt"
	"dverif/sim"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:    "C14",
		Rule:  "committees of real engines with parties that are offline or never asked from the beginning and members or leaders that start late, under the service's default time limits scaled down (and as they are in the thorough tier); non-trivial: somebody was missing",
		Known: []*pbt.KnownCase{{ID: "stale-selection", Fn: sim.StaleSelection}},
		Props: []*pbt.Prop{
			{Name: "eddsa-signing", Fn: sim.Quorum(sim.EdSigning, 15), Quick: 80, Thorough: 5000, Procs: 16},
			{Name: "presigned", Fn: sim.Quorum(sim.EcPresigned, 15), Quick: 80, Thorough: 5000, Procs: 16},
			{Name: "eddsa-keygen", Fn: sim.Quorum(sim.EdKeygenP, 15), Quick: 40, Thorough: 3000, Procs: 16},
			{Name: "retry-eddsa-signing", Fn: sim.Retry(sim.EdSigning), Quick: 40, Thorough: 3000, Procs: 16},
			{Name: "retry-presigned", Fn: sim.Retry(sim.EcPresigned), Quick: 30, Thorough: 2000, Procs: 16},
			{Name: "retry-eddsa-keygen", Fn: sim.Retry(sim.EdKeygenP), Quick: 30, Thorough: 2000, Procs: 16},
			{Name: "ecdsa-signing", Fn: sim.Quorum(sim.EcSigningP, 15), Quick: 8, Thorough: 200, Procs: 8},
		},
	})
}
