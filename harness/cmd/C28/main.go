package main

import (
	"time"

	"dverif/pbt"
	"dverif/pheart"
	"dverif/sim"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C28",
		Rule: "generated calls with hostile arguments, in any order and at the same time, to the API of a connected, a lonely and a single-node service, directly and as JSON-RPC, followed by proper calls; requests to nodes whose sends to another node hang; non-trivial: every case that made its calls",
		Props: []*pbt.Prop{
			{Name: "hung-peer", Fn: sim.HungPeer, Quick: 60, Thorough: 4000, Procs: 16},
			{Name: "alone", Fn: pheart.FuzzAlone, Quick: 500, Thorough: 20000, Procs: 32, Recycle: 40, Timeout: 3 * time.Minute},
			{Name: "rpc", Fn: pheart.FuzzRPC, Quick: 200, Thorough: 10000, Procs: 8, Recycle: 40, Timeout: 3 * time.Minute},
			{Name: "pair", Fn: pheart.FuzzPair, Quick: 40, Thorough: 3000, Procs: 40, Recycle: 10, Timeout: 25 * time.Minute},
		},
	})
}
