package fujiokam

import (
	"math/big"
	"testing"

	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

func zvBig(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }
func zvBase() *FujiOkamBase {
	p := zvBig("10144520506260765859590195611018097205184583127451838466618919711194501404004249961234533515955706013552414491571832368970922764307902791563111780207925203")
	q := zvBig("12265581865684958141271858147612258425011930850854904856269546242858680058794420653650903858565435607057761987520132472458241026949490304080598491390213843")
	n := new(big.Int).Mul(p, q)
	r := new(big.Int).Mul(new(big.Int).Exp(big.NewInt(2), big.NewInt(80), nil), n)
	b := &FujiOkamBase{Suite: nist.NewAES128SHA256QR512(), N: n, RandomRadius: r, RandomDiameter: new(big.Int).Mul(r, big.NewInt(2))}
	b.P = new(big.Int).Rsh(p, 1)
	b.Q = new(big.Int).Rsh(q, 1)
	h := random.Int(n, random.Stream)
	h.Mul(h, h).Mod(h, n)
	b.H1 = &Point{V: *h, M: n}
	gen := func() (*Point, *big.Int) {
		a := random.Int(b.RandomDiameter, random.Stream)
		a.Sub(a, b.RandomRadius)
		return &Point{V: *new(big.Int).Exp(h, a, n), M: n}, a
	}
	b.G1, b.alpha1 = gen()
	b.G2, b.alpha2 = gen()
	b.G3, b.alpha3 = gen()
	b.G4, b.alpha4 = gen()
	b.G5, b.alpha5 = gen()
	b.G6, b.alpha6 = gen()
	return b
}
func zvExp(b *FujiOkamBase, g *Point, e *big.Int) *big.Int {
	v := new(big.Int).Set(&g.V)
	x := new(big.Int).Set(e)
	if x.Sign() < 0 {
		v.ModInverse(v, b.N)
		x.Neg(x)
	}
	return v.Exp(v, x, b.N)
}
func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	// the decomposition, densely for small values and sparsely for large ones
	dec := func(x int64) {
		defer func() {
			if e := recover(); e != nil {
				fail("no decomposition of 4*%d+1: panic %v", x, e)
			}
		}()
		a, b, d := decomposeThreeSquareHelper(x)
		if a*a+b*b+d*d != 4*x+1 || a < 0 || b < 0 || d < 0 {
			fail("decomposition of 4*%d+1 is %d,%d,%d", x, a, b, d)
		}
	}
	for x := int64(0); x < 1500; x++ {
		dec(x)
	}
	for _, x := range []int64{12345, 99999, 1000003, 1 << 20, 1<<24 + 7} {
		dec(x)
	}
	for round := 0; round < 3; round++ {
		b := zvBase()
		for _, v := range []int64{0, 1, 2, 3, 5, 6, 7, 12, 100, 28, 1023, 4999, 70000} {
			func() {
				defer func() {
					if e := recover(); e != nil {
						fail("prover or verifier panics for the value %d: %v", v, e)
					}
				}()
				x := big.NewInt(v)
				c, r := b.Commit(x)
				arg := b.ProveNonneg(x, c, r)
				if !b.VerifyNonneg(c, arg) {
					fail("honest argument for the value %d is rejected", v)
				}
				if x.Int64() != v {
					fail("the prover changed the value %d", v)
				}
				if v < 6 {
					for _, rr := range []*big.Int{big.NewInt(0), big.NewInt(-3), big.NewInt(1), b.RandomRadius} {
						c := b.CommitWithR(x, rr)
						if !b.VerifyNonneg(c, b.ProveNonneg(x, c, rr)) {
							fail("honest argument for the value %d with randomness %v is rejected", v, rr)
						}
					}
				}
			}()
		}
		for _, v := range []int64{-1, -2, -5, -1000} {
			func() {
				defer func() { recover() }()
				x := big.NewInt(v)
				c, r := b.Commit(x)
				b.ProveNonneg(x, c, r)
				fail("the prover does not refuse %d", v)
			}()
		}
	}
}
