package fujiokam

import (
	"math/big"
	"testing"

	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

func zvBig(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }
func zvBase() *FujiOkamBase {
	p := zvBig("10144520506260765859590195611018097205184583127451838466618919711194501404004249961234533515955706013552414491571832368970922764307902791563111780207925203")
	q := zvBig("12265581865684958141271858147612258425011930850854904856269546242858680058794420653650903858565435607057761987520132472458241026949490304080598491390213843")
	n := new(big.Int).Mul(p, q)
	r := new(big.Int).Mul(new(big.Int).Exp(big.NewInt(2), big.NewInt(80), nil), n)
	b := &FujiOkamBase{Suite: nist.NewAES128SHA256QR512(), N: n, RandomRadius: r, RandomDiameter: new(big.Int).Mul(r, big.NewInt(2))}
	b.P = new(big.Int).Rsh(p, 1)
	b.Q = new(big.Int).Rsh(q, 1)
	h := random.Int(n, random.Stream)
	h.Mul(h, h).Mod(h, n)
	b.H1 = &Point{V: *h, M: n}
	gen := func() (*Point, *big.Int) {
		a := random.Int(b.RandomDiameter, random.Stream)
		a.Sub(a, b.RandomRadius)
		return &Point{V: *new(big.Int).Exp(h, a, n), M: n}, a
	}
	b.G1, b.alpha1 = gen()
	b.G2, b.alpha2 = gen()
	b.G3, b.alpha3 = gen()
	b.G4, b.alpha4 = gen()
	b.G5, b.alpha5 = gen()
	b.G6, b.alpha6 = gen()
	return b
}

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	b := zvBase()
	sec, pub := b.GenerateAllGnHonestyProof()
	bits := b.ChallengeAllGnHonesty()
	ans := b.AnswerAllGnHonesty(bits, sec, pub)
	gens := []*Point{b.G1, b.G2, b.G3, b.G4, b.G5, b.G6}
	want := func(ans []*big.Int, bits []bool, pub []*big.Int) int {
		for i := range pub {
			l := new(big.Int).Exp(&b.H1.V, ans[i], b.N)
			r := new(big.Int).Set(pub[i])
			if bits[i] {
				r.Mul(r, &gens[i/80].V)
				r.Mod(r, b.N)
			}
			if l.Cmp(r) != 0 {
				return i/80 + 1
			}
		}
		return 0
	}
	check := func(what string, ans []*big.Int, bits []bool, pub []*big.Int) {
		defer func() {
			if e := recover(); e != nil {
				fail("panic (%s): %v", what, e)
			}
		}()
		if g, w := b.CheckAllGnHonesty(ans, bits, pub), want(ans, bits, pub); g != w {
			fail("%s: checker says %d, the equations say %d", what, g, w)
		}
	}
	check("honest", ans, bits, pub)
	idx := [][]int{{0, 79}, {1}, {40}, {78}, {17}, {63}}
	for k := 0; k < 6; k++ {
		for _, j := range idx[k] {
			i := 80*k + j
			a2 := append([]*big.Int{}, ans...)
			a2[i] = new(big.Int).Add(ans[i], big.NewInt(1))
			check("one answer off by one", a2, bits, pub)
			a2[i] = new(big.Int).Neg(ans[i])
			check("one answer negated", a2, bits, pub)
			b2 := append([]bool{}, bits...)
			b2[i] = !b2[i]
			check("one bit flipped", ans, b2, pub)
			p2 := append([]*big.Int{}, pub...)
			p2[i] = new(big.Int).Mod(new(big.Int).Mul(pub[i], big.NewInt(4)), b.N)
			check("one public value changed", ans, bits, p2)
			p2[i] = new(big.Int).Add(pub[i], b.N)
			if bits[i] {
				check("one public value shifted by N", ans, bits, p2)
			}
		}
	}
	// every generator in turn replaced by one whose exponent is not the answered one
	for k := 0; k < 6; k++ {
		old := gens[k].V
		gens[k].V = *new(big.Int).Mod(new(big.Int).Mul(&old, &b.H1.V), b.N)
		check("dishonest generator", ans, bits, pub)
		gens[k].V = old
	}
	// two errors that cancel
	for i := 0; i < 479; i++ {
		a2 := append([]*big.Int{}, ans...)
		a2[i] = new(big.Int).Add(ans[i], big.NewInt(5))
		a2[i+1] = new(big.Int).Sub(ans[i+1], big.NewInt(5))
		if i%160 == 79 || i == 3 {
			check("two answers off in opposite directions", a2, bits, pub)
		}
	}
}
