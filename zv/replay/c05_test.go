package pedersen_fujiokam

import (
	"math/big"
	"testing"
	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

func zvBig(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }
func zvBase() *fujiokam.FujiOkamBase {
	p := zvBig("10144520506260765859590195611018097205184583127451838466618919711194501404004249961234533515955706013552414491571832368970922764307902791563111780207925203")
	q := zvBig("12265581865684958141271858147612258425011930850854904856269546242858680058794420653650903858565435607057761987520132472458241026949490304080598491390213843")
	n := new(big.Int).Mul(p, q)
	r := new(big.Int).Mul(new(big.Int).Exp(big.NewInt(2), big.NewInt(80), nil), n)
	b := &fujiokam.FujiOkamBase{Suite: nist.NewAES128SHA256QR512(), N: n, RandomRadius: r, RandomDiameter: new(big.Int).Mul(r, big.NewInt(2))}
	b.P = new(big.Int).Rsh(p, 1)
	b.Q = new(big.Int).Rsh(q, 1)
	h := random.Int(n, random.Stream)
	h.Mul(h, h).Mod(h, n)
	b.H1 = &fujiokam.Point{V: *h, M: n}
	gen := func() (*fujiokam.Point, *big.Int) {
		a := random.Int(b.RandomDiameter, random.Stream)
		a.Sub(a, b.RandomRadius)
		return &fujiokam.Point{V: *new(big.Int).Exp(h, a, n), M: n}, a
	}
	b.G1, _ = gen()
	b.G2, _ = gen()
	b.G3, _ = gen()
	b.G4, _ = gen()
	b.G5, _ = gen()
	b.G6, _ = gen()
	return b
}
func zvExp(b *fujiokam.FujiOkamBase, g *fujiokam.Point, e *big.Int) *big.Int {
	v := new(big.Int).Set(&g.V)
	x := new(big.Int).Set(e)
	if x.Sign() < 0 {
		v.ModInverse(v, b.N)
		x.Neg(x)
	}
	return v.Exp(v, x, b.N)
}
func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := nist.NewAES128SHA256QR512()
	rnd := func() abstract.Secret { return suite.Secret().Pick(random.Stream) }
	for round := 0; round < 3; round++ {
		fb := zvBase()
		pb := pedersen.CreateBaseFromSuite(suite)
		if round == 1 {
			pb = pedersen.CreateMinimalBaseFromSuite(suite)
		}
		for i, x := range []abstract.Secret{suite.Secret().Zero(), suite.Secret().One(), suite.Secret().SetInt64(7), suite.Secret().SetInt64(-1), rnd(), rnd()} {
			for j := 0; j < 4; j++ {
				func() {
					defer func() {
						if e := recover(); e != nil {
							fail("panic for the value %v: %v", x, e)
						}
					}()
					rp := rnd()
					if j == 1 {
						rp = suite.Secret().Zero()
					}
					if j == 2 {
						rp = suite.Secret().SetInt64(-1)
					}
					xi := new(big.Int).Set(SecretToBigInt(x))
					F, rf := fb.Commit(xi)
					if j == 3 {
						rf = big.NewInt(int64(-i))
						F = fb.CommitWithR(xi, rf)
					}
					P := pb.CommitWithR(x, rp)
					a := ProveEqual(pb, fb, x, P, rp, F, rf)
					if !VerifyEqual(pb, fb, P, F, a) {
						fail("honest equality argument rejected for value %v, Pedersen randomness %v, integer randomness %v", x, rp, rf)
					}
				}()
			}
		}
	}
}
