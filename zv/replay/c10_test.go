package util

import (
	"bytes"
	"testing"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	defer func() {
		if e := recover(); e != nil {
			fail("panic on valid input: %v", e)
		}
	}()
	suite := nist.NewAES128SHA256QR512()
	rnd := func() abstract.Secret { return suite.Secret().Pick(random.Stream) }
	seen := map[string]bool{}
	for i := 0; i < 12; i++ {
		for _, m := range [][]byte{nil, {}, {0}, {1}, []byte("hello"), bytes.Repeat([]byte{7}, 1000), bytes.Repeat([]byte{0}, 64)} {
			x := rnd()
			if i == 3 {
				x = suite.Secret().One()
			}
			if i == 4 {
				x = suite.Secret().SetInt64(-1)
			}
			if i == 5 {
				x = suite.Secret().Zero()
			}
			var g abstract.Point
			if i%2 == 1 {
				g = suite.Point().Mul(nil, rnd())
			}
			y := suite.Point().Mul(g, x)
			X := x.String()
			mm := append([]byte{}, m...)
			s := ElGamalSign(suite, random.Stream, m, x, g)
			if seen[string(s)] {
				fail("the same signature twice")
			}
			seen[string(s)] = true
			if err := ElGamalVerify(suite, m, y, s, g); err != nil {
				fail("own signature on %q rejected (base given: %v): %v", m, g != nil, err)
			}
			if x.String() != X || !bytes.Equal(mm, m) {
				fail("signing changed its inputs")
			}
		}
	}
	x := rnd()
	y := suite.Point().Mul(nil, x)
	for l := 0; l < 2000; l++ {
		if l > 600 && l%64 != 0 && l%100 != 0 {
			continue
		}
		m := make([]byte, l)
		random.Stream.XORKeyStream(m, m)
		if err := ElGamalVerify(suite, m, y, ElGamalSign(suite, random.Stream, m, x, nil), nil); err != nil {
			fail("own signature on a message of %d bytes rejected: %v", l, err)
			break
		}
	}
}
