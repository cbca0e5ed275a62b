package main

import (
	"crypto/sha256"
	"math/big"
	"math/rand"
)

// Inputs whose results have many leading zeros, found by search: a number in
// them is at least sixteen bits shorter than its field.  Random inputs would
// take tens of thousands of tries each.

func hexInt(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("harness: " + s)
	}
	return x
}

// scalars of points with a short coordinate; the first has an x of 166 bits.
var rareScalars = []*big.Int{
	new(big.Int).Rsh(new(big.Int).Add(secN, big.NewInt(1)), 1),
	hexInt("10000005f91"), hexInt("80000007cba"), hexInt("50000008eab"), // x
	hexInt("4000000634a"), hexInt("50000007ae9"), hexInt("5000000ee9a"), // y
}

func rareScalar(r *rand.Rand) *big.Int {
	x := pick(r, rareScalars...)
	if r.Intn(3) == 0 {
		return new(big.Int).Sub(secN, x)
	}
	return new(big.Int).Set(x)
}

// rareMsg is the message of a search's i-th try.
func rareMsg(i int) string {
	b := make([]byte, 32)
	b[0], b[31] = 0x5a, byte(i)
	for j, v := 15, i; j >= 8; j, v = j-1, v>>8 {
		b[j] = byte(v)
	}
	return hx(b)
}

var (
	rareEcdsaKey   = hx([]byte("a key for rare ECDSA signatures!"))
	rareEcdsa      = []int{0x75e7, 0xe602, 0x23ea6 /* s */, 0xc0f4, 0xd2c7, 0x1c8e4 /* nonce */, 0x1f62d /* r */}
	rareSchnorrKey = hx([]byte("a key for rare Schnorr signature"))
	rareSchnorr    = []int{0x1e15, 0x1110a /* -k */, 0x8f97, 0x23571, 0x2414b /* r */, 0x9987, 0x13f73 /* e */, 0xbeeb /* s */, 0x1ec49, 0x1fc3c /* y */, 0x412d1, 0x482dc /* k */}
	rareKeys       = []string{hx([]byte("the first half of a rare keypair")), hx([]byte("the second half of a rare keypair"[:32]))}
	rareMpc        = []int{0x2152, 0xceb6, 0x16eea /* s */, 0x69b4, 0x1abf9 /* r */}
	rareSmpc       = []int{0x41, 0x1299d, 0x210c3 /* r */, 0x1c56, 0x7d08, 0x183e9 /* s */, 0x2f16, 0xa198, 0x12398 /* a share of s */}
	rareHd         = []uint32{2147493045, 10888, 2147494835, 2147500541, 2147502214, 2147506964, 2147510564, 2147513914, 30370, 2147518373, 70364, 70604, 2147567297, 104426, 93067, 101121, 117328, 188900, 245242}
)

// rareParent is the chain code and the key whose children rareHd are rare.
func rareParent() ([]byte, []byte) {
	c, d := sha256.Sum256([]byte("a chain code")), sha256.Sum256([]byte("a parent key"))
	return c[:], d[:]
}
