package util

import (
	"testing"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	defer func() {
		if e := recover(); e != nil {
			fail("panic on valid input: %v", e)
		}
	}()
	suite := nist.NewAES128SHA256QR512()
	rnd := func() abstract.Secret { return suite.Secret().Pick(random.Stream) }
	seen := map[string]bool{}
	for i := 0; i < 10; i++ {
		x := rnd()
		if i == 1 {
			x = suite.Secret().One()
		}
		if i == 2 {
			x = suite.Secret().Zero()
		}
		if i == 3 {
			x = suite.Secret().SetInt64(-1)
		}
		y := suite.Point().Mul(nil, x)
		for _, m := range []abstract.Point{suite.Point().Null(), suite.Point().Mul(nil, suite.Secret().One()), suite.Point().Mul(nil, rnd()), suite.Point().Add(y, y), suite.Point().Neg(y)} {
			M, X, Y := m.String(), x.String(), y.String()
			K, C, _ := ElGamalEncrypt(suite, y, m)
			if seen[K.String()] {
				fail("an ephemeral key is used twice")
			}
			seen[K.String()] = true
			want := suite.Point().Add(m, suite.Point().Mul(K, x))
			if !C.Equal(want) {
				fail("the ciphertext of %v is not m*K^x", M)
			}
			k0, c0 := K.String(), C.String()
			d := ElGamalDecrypt(suite, x, K, C)
			if !d.Equal(m) {
				fail("decryption of the encryption of %v gives %v", M, d)
			}
			if m.String() != M || x.String() != X || y.String() != Y || K.String() != k0 || C.String() != c0 {
				fail("an input was changed")
			}
		}
	}
}
