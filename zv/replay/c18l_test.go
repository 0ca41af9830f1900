package lrs

import (
	"math/big"
	"math/rand"
	"testing"
)

// a ring signature that is encoded and decoded is the same ring signature
func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	r := rand.New(rand.NewSource(1))
	num := func(bits int) *big.Int {
		if bits == 0 {
			return new(big.Int)
		}
		return new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(bits)))
	}
	for _, n := range []int{0, 1, 2, 3, 17, 64} {
		for _, bits := range []int{0, 1, 8, 64, 512, 2048} {
			sig := &Signature{Y0: num(bits)}
			for i := 0; i < n; i++ {
				sig.S = append(sig.S, num(bits))
				sig.C = append(sig.C, num(bits))
			}
			y0 := new(big.Int).Set(sig.Y0)
			var got *Signature
			func() {
				defer func() { recover() }()
				got = ProtobufDecodeSignature(ProtobufEncodeSignature(sig))
			}()
			if got == nil || got.Y0 == nil || got.Y0.Cmp(y0) != 0 || sig.Y0.Cmp(y0) != 0 || len(got.S) != n || len(got.C) != n {
				fail("a signature of %d members with %d-bit numbers comes back as another one", n, bits)
				continue
			}
			for i := 0; i < n; i++ {
				if got.S[i].Cmp(sig.S[i]) != 0 || got.C[i].Cmp(sig.C[i]) != 0 {
					fail("component %d of a signature of %d members with %d-bit numbers is another one", i, n, bits)
				}
			}
		}
	}
}
