package main

import (
	"time"

	"dverif/pbt"
	"dverif/pheart"
	"dverif/pident"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C15",
		Rule: "committee sizes 1.. and work requests built for them, against ceil(2n/3) computed with integers; keygen and signing through the real services of 2-5 (thorough: up to 8) nodes, counting the shares and signers that are needed; the same with services that find their shares in their databases; non-trivial: every case with n >= 2",
		Props: []*pbt.Prop{
			{Name: "threshold", Fn: pident.Threshold, Quick: 400, Thorough: 4000},
			{Name: "restarted", Fn: pheart.Restarted, Quick: 12, Thorough: 400, Procs: 6, Recycle: 10, Timeout: 12 * time.Minute},
			{Name: "service", Fn: pheart.Quorum, Quick: 40, Thorough: 1500, Procs: 24, Recycle: 10, Timeout: 12 * time.Minute},
		},
	})
}
