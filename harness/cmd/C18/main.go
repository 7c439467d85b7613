package main

import (
	"dverif/pbt"
	"dverif/pstruct"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C18",
		Rule: "random operation sequences against a reference log per sender; non-trivial: the capacity was exceeded, or messages were taken while several senders had pending ones",
		Props: []*pbt.Prop{
			{Name: "message-cache", Fn: pstruct.MessageCacheModel, Quick: 6000, Thorough: 300000},
			{Name: "circular-queue", Fn: pstruct.CircularQueueModel, Quick: 6000, Thorough: 300000},
			{Name: "work-cache", Fn: pstruct.WorkCacheModel, Quick: 3000, Thorough: 100000},
			{Name: "concurrent", Fn: pstruct.CachesConcurrent, Quick: 400, Thorough: 10000},
		},
	})
}
