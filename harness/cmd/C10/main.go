package main

import (
	"dverif/pbt"
	"dverif/sim"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C10",
		Rule: "real engines run keygens and signings while a hostile member changes its own messages field by field (signing them again) and sends raw bytes, damaged copies and generated messages of all types, also under other peers' names: no crash, every handler returns, every work ends, nothing wrong is reported and a later honest signing succeeds; non-trivial: at least one own message changed or more than ten others sent",
		Props: []*pbt.Prop{
			{Name: "eddsa-signing", Fn: sim.Storm(sim.EdSigning), Quick: 100, Thorough: 8000, Procs: 16},
			{Name: "presigned", Fn: sim.Storm(sim.EcPresigned), Quick: 80, Thorough: 8000, Procs: 16},
			{Name: "eddsa-keygen", Fn: sim.Storm(sim.EdKeygenP), Quick: 40, Thorough: 4000, Procs: 16},
			{Name: "ecdsa-signing", Fn: sim.Storm(sim.EcSigningP), Quick: 12, Thorough: 800, Procs: 12},
			{Name: "ecdsa-keygen", Fn: sim.Storm(sim.EcKeygenP), Quick: 6, Thorough: 400, Procs: 6},
		},
	})
}
