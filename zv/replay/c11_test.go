package util

import (
	"bytes"
	"testing"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

func zvRef(suite abstract.Suite, m []byte, y abstract.Point, sig []byte, g abstract.Point) bool {
	n := suite.SecretLen()
	if len(sig) < 2*n {
		return false
	}
	c, r := suite.Secret(), suite.Secret()
	if c.UnmarshalBinary(sig[:n]) != nil || r.UnmarshalBinary(sig[n:2*n]) != nil {
		return false
	}
	T := suite.Point().Add(suite.Point().Mul(g, r), suite.Point().Mul(y, c))
	p, _ := T.MarshalBinary()
	ci := suite.Cipher(p)
	ci.Message(nil, nil, m)
	return suite.Secret().Pick(ci).Equal(c)
}
func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := nist.NewAES128SHA256QR512()
	rnd := func() abstract.Secret { return suite.Secret().Pick(random.Stream) }
	enc := func(c, r abstract.Secret) []byte {
		a, _ := c.MarshalBinary()
		b, _ := r.MarshalBinary()
		return append(append([]byte{}, a...), b...)
	}
	chal := func(m []byte, T abstract.Point) abstract.Secret {
		p, _ := T.MarshalBinary()
		ci := suite.Cipher(p)
		ci.Message(nil, nil, m)
		return suite.Secret().Pick(ci)
	}
	check1 := func(what string, m []byte, y abstract.Point, sig []byte, g abstract.Point) {
		defer func() {
			if e := recover(); e != nil {
				fail("%s: verification panics: %v", what, e)
			}
		}()
		s0, m0, y0 := append([]byte{}, sig...), append([]byte{}, m...), y.String()
		ref := zvRef(suite, m, y, sig, g)
		got := ElGamalVerify(suite, m, y, sig, g) == nil
		if got != ref {
			fail("%s: accepted=%v, challenge matches=%v (message %q, signature %x)", what, got, ref, m, sig)
		}
		if !bytes.Equal(s0, sig) || !bytes.Equal(m0, m) || y.String() != y0 {
			fail("%s: verification changed its inputs", what)
		}
	}
	check := func(what string, m []byte, y abstract.Point, sig []byte, g abstract.Point) {
		check1(what, m, y, sig, g)
		check1(what+", with trailing bytes", m, y, append(append([]byte{}, sig...), 0, 1, 2), g)
	}
	for i := 0; i < 6; i++ {
		x := rnd()
		var g abstract.Point
		gg := suite.Point().Mul(nil, suite.Secret().One())
		if i%2 == 1 {
			gg = suite.Point().Mul(nil, rnd())
			g = gg
		}
		y := suite.Point().Mul(gg, x)
		for _, m := range [][]byte{nil, []byte("m"), []byte("a longer message"), bytes.Repeat([]byte{3}, 200), bytes.Repeat([]byte{5}, 1024), bytes.Repeat([]byte{9}, 70001)} {
			k := rnd()
			c := chal(m, suite.Point().Mul(gg, k))
			r := suite.Secret().Sub(k, suite.Secret().Mul(x, c))
			s := enc(c, r)
			check("valid", m, y, s, g)
			check("valid with trailing bytes", m, y, append(append([]byte{}, s...), 1, 2), g)
			check("message extended", append(append([]byte{}, m...), 0), y, s, g)
			if len(m) > 0 {
				check("message truncated", m[:len(m)-1], y, s, g)
				m2 := append([]byte{}, m...)
				m2[len(m2)-1] ^= 1
				check("message changed", m2, y, s, g)
				m2 = append([]byte{}, m...)
				m2[len(m)/2] ^= 4
				check("message changed", m2, y, s, g)
				m2 = append([]byte{}, m...)
				m2[0] ^= 128
				check("message changed", m2, y, s, g)
			}
			check("other key", m, suite.Point().Mul(gg, rnd()), s, g)
			check("inverse key", m, suite.Point().Neg(y), s, g)
			check("other base", m, y, s, suite.Point().Mul(nil, rnd()))
			check("default base", m, y, s, nil)
			for _, p := range []int{0, 1, len(s)/2 - 1, len(s) / 2, len(s) - 1} {
				s2 := append([]byte{}, s...)
				s2[p] ^= 1
				check("signature changed", m, y, s2, g)
			}
			for _, l := range []int{0, 1, len(s) / 2, len(s) - 1} {
				check("signature truncated", m, y, s[:l], g)
			}
			check("challenge zero", m, y, enc(suite.Secret().Zero(), r), g)
			check("all zero", m, y, enc(suite.Secret().Zero(), suite.Secret().Zero()), g)
			check("swapped", m, y, enc(r, c), g)
			check("negated", m, y, enc(suite.Secret().Neg(c), r), g)
			// sign errors and forgeries against weakened equations
			check("response with the other sign", m, y, enc(c, suite.Secret().Add(k, suite.Secret().Mul(x, c))), g)
			check("key left out", m, y, enc(c, k), g)
			ce := chal(nil, suite.Point().Mul(gg, k))
			check("message left out of the challenge", m, y, enc(ce, suite.Secret().Sub(k, suite.Secret().Mul(x, ce))), g)
			T := suite.Point().Mul(nil, rnd())
			check("arbitrary commitment", m, y, enc(chal(m, T), rnd()), g)
		}
	}
}
