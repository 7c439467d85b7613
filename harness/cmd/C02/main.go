package main

import (
	"dverif/pbt"
	"dverif/sim"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C02",
		Rule: "real engines generate a key under disturbances or with a dishonest member; reported keys, stored shares and their interpolation are compared, then a random quorum signs with the stored shares; and keys with rare coordinates are reported to the host; non-trivial: the key generation finished on all nodes and the signing was checked",
		Props: []*pbt.Prop{
			{Name: "eddsa", Fn: sim.KeygenThenSign(true), Quick: 60, Thorough: 5000, Procs: 16},
			{Name: "reported-key", Fn: sim.ReportedKey, Quick: 80, Thorough: 20000},
			{Name: "ecdsa", Fn: sim.KeygenThenSign(false), Quick: 10, Thorough: 300, Procs: 8},
		},
	})
}
