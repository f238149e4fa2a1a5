package main

import "golang.org/x/crypto/ripemd160"

// RIPEMD160 is the module the repository itself depends on: the properties
// are about what is hashed, not about the hash.
func ripemd(b []byte) []byte {
	h := ripemd160.New()
	h.Write(b)
	return h.Sum(nil)
}
