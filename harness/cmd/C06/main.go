package main

import (
	"dverif/pbt"
	"dverif/sim"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C06",
		Rule: "committees of real engines where one node gets the request or the selection late, with other works' messages pending from the same senders (64 at most) and floods from others, and no asking for messages: the work must succeed everywhere; non-trivial: protocol messages were on their way to the late node before it could use them",
		Props: []*pbt.Prop{
			{Name: "presigned", Fn: sim.Late(sim.EcPresigned), Quick: 200, Thorough: 10000, Procs: 16},
			{Name: "eddsa-signing", Fn: sim.Late(sim.EdSigning), Quick: 50, Thorough: 4000, Procs: 16},
			{Name: "eddsa-keygen", Fn: sim.Late(sim.EdKeygenP), Quick: 24, Thorough: 2000, Procs: 16},
			{Name: "ecdsa-signing", Fn: sim.Late(sim.EcSigningP), Quick: 6, Thorough: 300, Procs: 8},
		},
	})
}
