package main

import (
	"dverif/pbt"
	"dverif/sim"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C08",
		Rule: "real engines; the first transmissions of chosen message kinds on chosen links are lost (or one link never carries a broadcast message that other nodes hold); every node must succeed with the job time limit far away; non-trivial: a protocol message was really lost",
		Props: []*pbt.Prop{
			{Name: "eddsa-signing", Fn: sim.Recover(sim.EdSigning), Quick: 60, Thorough: 5000, Procs: 16},
			{Name: "ecdsa-presigned", Fn: sim.Recover(sim.EcPresigned), Quick: 150, Thorough: 5000, Procs: 16},
			{Name: "eddsa-keygen", Fn: sim.Recover(sim.EdKeygenP), Quick: 40, Thorough: 5000, Procs: 16},
			{Name: "ecdsa-signing", Fn: sim.Recover(sim.EcSigningP), Quick: 10, Thorough: 500, Procs: 8},
			{Name: "ecdsa-keygen", Fn: sim.Recover(sim.EcKeygenP), Quick: 6, Thorough: 300, Procs: 8},
		},
	})
}
