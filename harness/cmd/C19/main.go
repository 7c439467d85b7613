package main

import (
	"time"

	"dverif/pbt"
	"dverif/pdb"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C19",
		Rule: "random histories of saves, loads and status changes over all tables of the in-memory database, against a reference model; concurrent use, large stores and long idle times; non-trivial: at least two kinds of items were saved or changed",
		Props: []*pbt.Prop{
			{Name: "model", Fn: pdb.Model, Quick: 1500, Thorough: 40000},
			{Name: "concurrent", Fn: pdb.Concurrent, Quick: 200, Thorough: 4000},
			{Name: "large", Fn: pdb.Large, Quick: 24, Thorough: 600, Timeout: 120 * time.Second},
			{Name: "idle", Fn: pdb.Idle, Quick: 8, Thorough: 16, Timeout: 90 * time.Second},
		},
	})
}
