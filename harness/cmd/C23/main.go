package main

import (
	"dverif/pbt"
	"dverif/pident"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C23",
		Rule: "random valid keys of both types in several random orders, against the identity computed by libp2p from the private key; and random unusable keys; non-trivial: at least two keys in two orders, or an unusable key",
		Props: []*pbt.Prop{
			{Name: "identities", Fn: pident.Identities, Quick: 1500, Thorough: 60000},
			{Name: "bad-keys", Fn: pident.BadKeys, Quick: 3000, Thorough: 100000},
		},
	})
}
