package main

import (
	"time"

	"dverif/pboot"
	"dverif/pbt"
)

func main() {
	if pboot.Child() {
		return
	}
	pbt.Main(&pbt.Check{
		ID:   "C32",
		Rule: "services started as processes of their own from a generated .env and configuration file, driven over their RPC port, killed and started again; non-trivial: with a verified signature, or a start that had to fail",
		Props: []*pbt.Prop{
			{Name: "single", Fn: pboot.Single, Quick: 24, Thorough: 400, Procs: 12, Timeout: 5 * time.Minute},
			{Name: "committee", Fn: pboot.Committee, Quick: 24, Thorough: 400, Procs: 4, Timeout: 5 * time.Minute, QuickCap: 150 * time.Second},
			{Name: "refuses", Fn: pboot.Refuses, Quick: 60, Thorough: 1000, Procs: 6},
		},
	})
}
