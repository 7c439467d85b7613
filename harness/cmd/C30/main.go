package main

import (
	"dverif/pbt"
	"dverif/phost"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C30",
		Rule: "histories of keygens and sign requests of both kinds, also unsupported, malformed, concurrent or before a key exists, against the single-node service, verified with independent verifiers; non-trivial: at least one request was signed",
		Props: []*pbt.Prop{
			{Name: "single", Fn: phost.Single, Quick: 128, Thorough: 6000, Procs: 64},
		},
	})
}
