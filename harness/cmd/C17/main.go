package main

import (
	"time"

	"dverif/pbt"
	"dverif/pheart"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C17",
		Rule: "histories of sign requests (concurrent, repeated, conflicting, refused, reaching only some nodes) to the real services of 2-4 nodes over loopback connections, everything posted matched with what was accepted; requests before there is a key and again afterwards; one service alone with requests whose lists of message ids are related (joined, permuted, hashed, shifted) but different, or that all fail; non-trivial: at least one signing succeeded, at least one related list",
		Props: []*pbt.Prop{
			{Name: "work-ids", Fn: pheart.WorkIDs, Quick: 150, Thorough: 10000, Procs: 12, Recycle: 10},
			{Name: "again", Fn: pheart.Again, Quick: 16, Thorough: 500, Procs: 16, Recycle: 10, Timeout: 5 * time.Minute},
			{Name: "failing", Fn: pheart.Failing, Quick: 32, Thorough: 500, Procs: 32, Recycle: 10, Timeout: 5 * time.Minute},
			{Name: "too-early", Fn: pheart.TooEarly, Quick: 16, Thorough: 500, Procs: 16, Recycle: 10, Timeout: 8 * time.Minute},
			{Name: "service", Fn: pheart.Service, Quick: 56, Thorough: 3000, Procs: 56, Recycle: 10, Timeout: 12 * time.Minute},
		},
	})
}
