package main

import (
	"dverif/pbt"
	"dverif/sim"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C24",
		Rule: "message keys over work ids with and without separators, messages of every kind made by the constructors and passed through the network encoding, and runs of the protocols whose every message passes through it and is compared with the tables; non-trivial: a work id with a separator character, a message with parts, a protocol run that finished",
		Props: []*pbt.Prop{
			{Name: "keys", Fn: sim.MessageKeys, Quick: 4000, Thorough: 200000},
			{Name: "envelopes", Fn: sim.Envelopes, Quick: 4000, Thorough: 200000},
			{Name: "eddsa-signing", Fn: sim.Protocols(sim.EdSigning), Quick: 60, Thorough: 1500},
			{Name: "eddsa-keygen", Fn: sim.Protocols(sim.EdKeygenP), Quick: 16, Thorough: 1000},
			{Name: "presigned", Fn: sim.Protocols(sim.EcPresigned), Quick: 300, Thorough: 3000},
			{Name: "ecdsa-signing", Fn: sim.Protocols(sim.EcSigningP), Quick: 4, Thorough: 150},
			{Name: "ecdsa-keygen", Fn: sim.Protocols(sim.EcKeygenP), Quick: 4, Thorough: 150},
		},
	})
}
