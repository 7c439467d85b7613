package main

import (
	"dverif/pbt"
	"dverif/pframe"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C21",
		Rule: "random message lists sent through streams that split, join and fail at random places, against the list that was written; non-trivial: at least two messages or a split inside a header, a cut or a failure",
		Props: []*pbt.Prop{
			{Name: "frames", Fn: pframe.Frames, Quick: 4000, Thorough: 200000},
			{Name: "oversize", Fn: pframe.Oversize, Quick: 200, Thorough: 2000},
			{Name: "write-failure", Fn: pframe.WriteFailure, Quick: 2000, Thorough: 50000},
			{Name: "garbage", Fn: pframe.Garbage, Quick: 4000, Thorough: 200000},
		},
	})
}
