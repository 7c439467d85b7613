package main

import (
	"dverif/pbt"
	"dverif/sim"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C13",
		Rule: "one real node among scripted ones: as a leader it gets answers of all kinds in random order before and after the request, as a member it gets sound and unsound announcements from the leader and others; what it announces, executes and reports is compared with an oracle; non-trivial: a result was announced, or an announcement of the leader took effect",
		Props: []*pbt.Prop{
			{Name: "member", Fn: sim.SelectMember, Quick: 600, Thorough: 50000},
			{Name: "leader", Fn: sim.SelectLeader, Quick: 300, Thorough: 30000, Procs: 16},
		},
	})
}
