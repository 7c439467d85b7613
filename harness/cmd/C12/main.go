package main

import (
	"dverif/pbt"
	"dverif/pident"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C12",
		Rule: "random committees and work ids, the same committee listed in several random orders (also with other indexes and copies of the parties); non-trivial: at least two parties and two different orders",
		Props: []*pbt.Prop{
			{Name: "leader", Fn: pident.Leader, Quick: 4000, Thorough: 200000},
			{Name: "spread", Fn: pident.LeaderSpread, Quick: 400, Thorough: 10000},
		},
	})
}
