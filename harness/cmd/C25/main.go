package main

import (
	"dverif/pbt"
	"dverif/pmisc"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:          "C25",
		Rule:        "random alternations of arriving messages (own, foreign, repeated, out of order) and quiet times for all four protocols, every report compared with a reference model; steady arrival without reports; concurrent arrival; monitors stopped at any moment; non-trivial: something was missing in a quiet time",
		Assumptions: []string{"the monitor's time limit is set to 30-120 ms; a report may be late by up to 4 s (confirmed with longer limits), but its content is compared exactly"},
		Props: []*pbt.Prop{
			{Name: "quiet", Fn: pmisc.Monitor, Quick: 900, Thorough: 40000, Procs: 32},
			{Name: "busy", Fn: pmisc.MonitorBusy, Quick: 200, Thorough: 4000, Procs: 16},
			{Name: "stopped", Fn: pmisc.MonitorStopped, Quick: 150, Thorough: 4000, Procs: 16},
			{Name: "concurrent", Fn: pmisc.MonitorConcurrent, Quick: 600, Thorough: 20000, Procs: 16},
		},
	})
}
