package main

import (
	"dverif/pbt"
	"dverif/pcrypto"
)

func main() {
	pbt.Main(&pbt.Check{
		ID:   "C20",
		Rule: "random keys, plaintexts and alterations (bit flips, truncations, insertions, other keys, splices of two encryptions); the file store against a map with reopening and altered files; non-trivial: an alteration was decrypted, or the store was reopened or altered",
		Props: []*pbt.Prop{
			{Name: "aes", Fn: pcrypto.AES, Quick: 8000, Thorough: 400000},
			{Name: "store", Fn: pcrypto.Store, Quick: 500, Thorough: 10000},
		},
	})
}
