package main

import (
	"dverif/pbt"
	"dverif/pmisc"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C29",
		Rule: "random configurations through the service's writer and reader; random files with documented settings in random layouts; files broken in fourteen ways; non-trivial: peers or quoting were needed, at least five settings were given, or the file was broken",
		Props: []*pbt.Prop{
			{Name: "round-trip", Fn: pmisc.ConfigRoundTrip, Quick: 4000, Thorough: 150000},
			{Name: "documented", Fn: pmisc.ConfigDocumented, Quick: 4000, Thorough: 150000},
			{Name: "malformed", Fn: pmisc.ConfigMalformed, Quick: 2000, Thorough: 40000},
		},
	})
}
