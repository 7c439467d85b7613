package main

import (
	"time"

	"dverif/pbt"
	"dverif/pnet"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C22",
		Rule: "generated traffic (concurrent sends, sizes from 0 to the limit, restarts of peers, missing and hanging listeners, outsiders with garbage frames, refused sends) between real connection managers on the loopback, every delivery compared with what was sent; non-trivial: at least two messages were sent",
		Props: []*pbt.Prop{
			{Name: "mesh", Fn: pnet.Mesh, Quick: 160, Thorough: 6000, Procs: 16, Recycle: 25, Timeout: 4 * time.Minute},
		},
	})
}
