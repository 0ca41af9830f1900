package lrs

import (
	"math/big"
	"testing"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	for _, g := range []abstract.Point{suite.Point().Base(), suite.Point().Mul(nil, zvlib.Rnd())} {
		base := CreateBase(util.PointToBigInt(g))
		if base.Q.Cmp(new(big.Int).Sub(base.P, big.NewInt(1))) != 0 || !base.P.ProbablyPrime(20) || base.G.Cmp(util.PointToBigInt(g)) != 0 {
			fail("the parameters of the base are wrong")
			return
		}
		for n := 1; n < 6; n++ {
			var xs []abstract.Secret
			var ys []abstract.Point
			var xb, yb []*big.Int
			for i := 0; i < n; i++ {
				x, y := zvlib.Key(g)
				xs, ys = append(xs, x), append(ys, y)
				xb, yb = append(xb, new(big.Int).Set(util.SecretToBigInt(x))), append(yb, util.PointToBigInt(y))
			}
			for _, m := range []string{"", "hello", "a longer message \x00\x01"} {
				var sigs []*Signature
				ctx := base.computeh([]byte(m), computeL(yb))
				for pi := 0; pi < n; pi++ {
					for _, hl := range []bool{false, true} {
						var s *Signature
						ok := false
						if zvlib.Stops(func() {
							if hl {
								s = base.SignHelper([]byte(m), n, pi, xb[pi], yb)
								ok = base.VerifyHelper([]byte(m), n, pi, s, yb)
							} else {
								s = base.Sign([]byte(m), n, pi, xs[pi], ys)
								ok = base.Verify([]byte(m), n, pi, s, ys)
							}
						}) {
							fail("signing or verifying stops (ring of %d, position %d)", n, pi)
							continue
						}
						if !ok {
							fail("a signature of position %d in a ring of %d is refused", pi, n)
						}
						if s.Y0.Cmp(new(big.Int).Exp(ctx, xb[pi], base.P)) != 0 {
							fail("the tag is not the context point raised to the signer key")
						}
						if len(s.S) != n || len(s.C) != n {
							fail("wrong number of components")
						}
						sigs = append(sigs, s)
					}
					if util.SecretToBigInt(xs[pi]).Cmp(xb[pi]) != 0 || util.PointToBigInt(ys[pi]).Cmp(yb[pi]) != 0 {
						fail("signing changes the keys")
					}
				}
				for i := range sigs {
					for j := range sigs {
						if Linkable(sigs[i], sigs[j]) != (i/2 == j/2) {
							fail("signatures of positions %d and %d: linkable %v", i/2, j/2, i/2 != j/2)
						}
					}
				}
			}
			a := base.SignHelper([]byte("a"), n, 0, xb[0], yb)
			b := base.SignHelper([]byte("b"), n, 0, xb[0], yb)
			if Linkable(a, b) {
				fail("signatures over different messages are linkable")
			}
		}
	}
}
