package shuffle

import (
	"testing"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	for round := 0; round < 30; round++ {
		k := 2 + round%6
		x := zvlib.Rnd()
		h := suite.Point().Mul(nil, x)
		var X, Y, X0, Y0 []abstract.Point
		for i := 0; i < k; i++ {
			a, b := suite.Point().Mul(nil, zvlib.Rnd()), suite.Point().Mul(nil, zvlib.Rnd())
			if round%3 == 2 { // all first components equal, as the servers use it
				a = suite.Point().Mul(nil, x)
			}
			X, Y = append(X, a), append(Y, b)
			X0, Y0 = append(X0, suite.Point().Add(a, suite.Point().Null())), append(Y0, suite.Point().Add(b, suite.Point().Null()))
		}
		if round%5 == 4 { // pairs that agree in one component or both
			Y[k-1], Y0[k-1] = suite.Point().Add(Y[0], suite.Point().Null()), Y0[0]
			if round%2 == 0 {
				X[k-1], X0[k-1] = suite.Point().Add(X[0], suite.Point().Null()), X0[0]
			}
		}
		var Xb, Yb, XX, YY []abstract.Point
		if zvlib.Stops(func() {
			if round%2 == 0 {
				Xb, Yb, _, XX, YY = Shuffle(suite, nil, h, X, Y, random.Stream)
			} else {
				Xb, Yb, _, XX, YY = Shuffle(suite, nil, h, X, Y, suite.Cipher(abstract.RandomKey))
			}
		}) {
			fail("shuffling %d pairs stops", k)
			return
		}
		if len(Xb) != k || len(Yb) != k || len(XX) != k || len(YY) != k {
			fail("shuffling %d pairs returns lists of other lengths", k)
			return
		}
		used := make([]bool, k)
		seen := map[string]bool{}
		for i := 0; i < k; i++ {
			if !X[i].Equal(X0[i]) || !Y[i].Equal(Y0[i]) {
				fail("shuffling changed input %d of %d", i, k)
				return
			}
			if !suite.Point().Mul(XX[i], x).Equal(YY[i]) {
				fail("the blinding parts of output %d of %d do not have one exponent", i, k)
				return
			}
			if seen[XX[i].String()] || XX[i].Equal(suite.Point().Null()) {
				fail("two of %d pairs are blinded alike, or not at all", k)
				return
			}
			seen[XX[i].String()] = true
			px, py := suite.Point().Sub(Xb[i], XX[i]), suite.Point().Sub(Yb[i], YY[i])
			found := false
			for j := 0; j < k && !found; j++ {
				if !used[j] && px.Equal(X[j]) && py.Equal(Y[j]) {
					used[j], found = true, true
				}
			}
			if !found {
				fail("output %d of %d is not a blinded input pair, or one of them appears twice", i, k)
				return
			}
		}
	}
}
