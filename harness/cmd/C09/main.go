package main

import (
	"dverif/pbt"
	"dverif/sim"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C09",
		Rule: "histories on one real engine: messages are stored by sending and by receiving, and other nodes ask with stored, altered, foreign and malformed keys, directly or through others; answers are compared with a model of who may have what; non-trivial: at least one question was answered",
		Props: []*pbt.Prop{
			{Name: "ask-model", Fn: sim.AskModel, Quick: 1500, Thorough: 100000},
		},
	})
}
