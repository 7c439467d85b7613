package main

import (
	"dverif/pbt"
	"dverif/pdb"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C16",
		Rule: "histories of adding, asking for, failing to mark and reloading presigns on the real database, against a model of the unused ones; non-trivial: at least two requests were served, or several routines asked at once",
		Props: []*pbt.Prop{
			{Name: "manager", Fn: pdb.Manager, Quick: 8000, Thorough: 200000},
			{Name: "manager-concurrent", Fn: pdb.ManagerConcurrent, Quick: 3000, Thorough: 60000},
		},
	})
}
