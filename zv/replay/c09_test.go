package fujiokam

import (
	"math/big"
	"testing"

	"github.com/dedis/crypto/nist"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	defer func() {
		if e := recover(); e != nil {
			fail("panic while setting up a base: %v", e)
		}
	}()
	two := big.NewInt(2)
	seen := map[string]bool{}
	for i := 0; i < 3; i++ {
		b := CreateBaseFromSuite(nist.NewAES128SHA256QR512())
		p := new(big.Int).Add(new(big.Int).Mul(b.P, two), big.NewInt(1))
		q := new(big.Int).Add(new(big.Int).Mul(b.Q, two), big.NewInt(1))
		if b.N.Cmp(new(big.Int).Mul(p, q)) != 0 {
			fail("the modulus is not the product of 2p+1 and 2q+1")
		}
		for _, x := range []*big.Int{p, q, b.P, b.Q} {
			if !x.ProbablyPrime(20) {
				fail("not a safe prime")
			}
			if seen[x.String()] {
				fail("a prime is used again")
			}
			seen[x.String()] = true
		}
		if p.BitLen() != 512 || q.BitLen() != 512 {
			fail("primes of %d and %d bits", p.BitLen(), q.BitLen())
		}
		h := &b.H1.V
		if h.Sign() <= 0 || h.Cmp(big.NewInt(1)) == 0 || h.Cmp(b.N) >= 0 {
			fail("h1 out of range")
			continue
		}
		if big.Jacobi(h, p) != 1 || big.Jacobi(h, q) != 1 {
			fail("h1 is not a square")
		}
		if h.BitLen() < 900 {
			fail("h1 has only %d bits", h.BitLen())
		}
		r := new(big.Int).Mul(new(big.Int).Lsh(big.NewInt(1), 80), b.N)
		if b.RandomRadius.Cmp(r) != 0 || b.RandomDiameter.Cmp(new(big.Int).Mul(r, two)) != 0 {
			fail("wrong randomness range")
			continue
		}
		gs := []*Point{b.G1, b.G2, b.G3, b.G4, b.G5, b.G6}
		for k, a := range []*big.Int{b.alpha1, b.alpha2, b.alpha3, b.alpha4, b.alpha5, b.alpha6} {
			if a == nil || gs[k] == nil {
				fail("g%d is not set", k+1)
				continue
			}
			if gs[k].V.Cmp(new(big.Int).Exp(h, a, b.N)) != 0 {
				fail("g%d is not h1 to its exponent", k+1)
			}
			if a.Cmp(r) >= 0 || a.Cmp(new(big.Int).Neg(r)) < 0 {
				fail("exponent %d out of range", k+1)
			}
			if a.BitLen() < r.BitLen()-64 {
				fail("exponent %d has only %d bits", k+1, a.BitLen())
			}
			if seen[a.String()] {
				fail("exponent %d is not its own", k+1)
			}
			seen[a.String()] = true
			if gs[k].M != b.N && gs[k].M.Cmp(b.N) != 0 {
				fail("g%d has another modulus", k+1)
			}
		}
		m := CreateMinimumBase(b.Suite, b.N)
		if m.N.Cmp(b.N) != 0 || m.RandomRadius.Cmp(r) != 0 || m.RandomDiameter.Cmp(new(big.Int).Mul(r, two)) != 0 {
			fail("wrong minimum base")
		}
	}
}
