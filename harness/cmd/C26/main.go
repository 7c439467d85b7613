package main

import (
	"dverif/pbt"
	"dverif/pmisc"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C26",
		Rule: "random histories of senders and accusations over similar work ids and rounds, against a reference model, sequential and concurrent; non-trivial: culprits were asked for in a round in which somebody had sent and somebody else had not",
		Props: []*pbt.Prop{
			{Name: "model", Fn: pmisc.Blame, Quick: 6000, Thorough: 300000},
			{Name: "concurrent", Fn: pmisc.BlameConcurrent, Quick: 1000, Thorough: 40000},
		},
	})
}
