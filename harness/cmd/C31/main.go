package main

import (
	"dverif/pbt"
	"dverif/phost"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C31",
		Rule: "generated keygen and signing results posted, also concurrently, to a host over loopback HTTP that answers, refuses, fails, breaks off or is down, and hosts that begin to answer late; non-trivial: with at least one fault",
		Props: []*pbt.Prop{
			{Name: "posting", Fn: phost.Posting, Quick: 3000, Thorough: 60000},
			{Name: "dialling", Fn: phost.Dialling, Quick: 16, Thorough: 300, Procs: 16},
		},
	})
}
