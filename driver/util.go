package main

import (
	"crypto/sha256"
	"math/rand"

	"github.com/keyfuse/tokucore/xcrypto"
)

func hash160(b []byte) []byte { return xcrypto.Hash160(b) }
func sha(b []byte) []byte     { h := sha256.Sum256(b); return h[:] }

// mangle is a copy of b with one thing wrong (or, rarely, nothing).
func mangle(r *rand.Rand, b []byte) []byte {
	c := append([]byte{}, b...)
	n := len(c)
	if n == 0 {
		return rbytes(r, r.Intn(4))
	}
	i := r.Intn(n)
	switch r.Intn(10) {
	case 0, 1, 2:
		c[i] ^= 1 << uint(r.Intn(8))
	case 3:
		c[i] = byte(r.Intn(256))
	case 4:
		c = append(c[:i], c[i+1:]...)
	case 5:
		c = append(c[:i:i], append([]byte{byte(r.Intn(256))}, c[i:]...)...)
	case 6:
		c = c[:i]
	case 7:
		c = append(c, rbytes(r, 1+r.Intn(4))...)
	case 8:
		j := r.Intn(n)
		c[i], c[j] = c[j], c[i]
	case 9:
		for j := i; j < n; j++ {
			c[j] = byte(pick(r, 0, 255))
			if r.Intn(3) == 0 {
				break
			}
		}
	}
	return c
}
