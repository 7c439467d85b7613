package main

import (
	"dverif/pbt"
	"dverif/sim"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C01",
		Rule: "real engines of a committee with dealt keys; signings of random messages without and with faults, lost messages and one dishonest member; every result reported as success is verified with independent verifiers; non-trivial: at least one success was reported and verified",
		Props: []*pbt.Prop{
			{Name: "healthy-eddsa", Fn: sim.HealthyEd, Quick: 120, Thorough: 5000},
			{Name: "healthy-ecdsa", Fn: sim.HealthyEc, Quick: 10, Thorough: 1000},
			{Name: "healthy-presigns", Fn: sim.HealthyPresign, Quick: 300, Thorough: 5000},
			{Name: "entry-eddsa", Fn: sim.OneEntry(sim.EdSigning), Quick: 60, Thorough: 5000, Procs: 16},
			{Name: "entry-presigns", Fn: sim.OneEntry(sim.EcPresigned), Quick: 60, Thorough: 5000, Procs: 16},
			{Name: "faulty-eddsa", Fn: sim.SignValidEd, Quick: 100, Thorough: 20000, Procs: 16},
			{Name: "faulty-ecdsa", Fn: sim.SignValidEc, Quick: 12, Thorough: 1000, Procs: 8},
			{Name: "faulty-presigns", Fn: sim.SignValidPresign, Quick: 100, Thorough: 20000, Procs: 16},
		},
	})
}
