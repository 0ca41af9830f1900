package fujiokam

import (
	"math/big"
	"testing"

	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

func zvBig(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }
func zvBase() *FujiOkamBase {
	p := zvBig("10144520506260765859590195611018097205184583127451838466618919711194501404004249961234533515955706013552414491571832368970922764307902791563111780207925203")
	q := zvBig("12265581865684958141271858147612258425011930850854904856269546242858680058794420653650903858565435607057761987520132472458241026949490304080598491390213843")
	n := new(big.Int).Mul(p, q)
	r := new(big.Int).Mul(new(big.Int).Exp(big.NewInt(2), big.NewInt(80), nil), n)
	b := &FujiOkamBase{Suite: nist.NewAES128SHA256QR512(), N: n, RandomRadius: r, RandomDiameter: new(big.Int).Mul(r, big.NewInt(2))}
	b.P = new(big.Int).Rsh(p, 1)
	b.Q = new(big.Int).Rsh(q, 1)
	h := random.Int(n, random.Stream)
	h.Mul(h, h).Mod(h, n)
	b.H1 = &Point{V: *h, M: n}
	gen := func() (*Point, *big.Int) {
		a := random.Int(b.RandomDiameter, random.Stream)
		a.Sub(a, b.RandomRadius)
		return &Point{V: *new(big.Int).Exp(h, a, n), M: n}, a
	}
	b.G1, b.alpha1 = gen()
	b.G2, b.alpha2 = gen()
	b.G3, b.alpha3 = gen()
	b.G4, b.alpha4 = gen()
	b.G5, b.alpha5 = gen()
	b.G6, b.alpha6 = gen()
	return b
}
func zvExp(b *FujiOkamBase, g *Point, e *big.Int) *big.Int {
	v := new(big.Int).Set(&g.V)
	x := new(big.Int).Set(e)
	if x.Sign() < 0 {
		v.ModInverse(v, b.N)
		x.Neg(x)
	}
	return v.Exp(v, x, b.N)
}
func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	defer func() {
		if e := recover(); e != nil {
			fail("panic on valid input: %v", e)
		}
	}()
	b := zvBase()
	n := new(big.Int).Set(b.N)
	mb := CreateMinimumBase(b.Suite, new(big.Int).Set(n))
	if mb.N.Cmp(n) != 0 || mb.RandomRadius.Cmp(b.RandomRadius) != 0 || mb.RandomDiameter.Cmp(b.RandomDiameter) != 0 {
		fail("CreateMinimumBase: wrong modulus or radius")
	}
	com := func(x, r *big.Int) *big.Int {
		v := zvExp(b, b.G1, x)
		v.Mul(v, zvExp(b, b.H1, r))
		return v.Mod(v, n)
	}
	rnd := func() *big.Int { r := random.Int(b.RandomDiameter, random.Stream); return r.Sub(r, b.RandomRadius) }
	vals := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(-1), big.NewInt(5), big.NewInt(-7), rnd(), new(big.Int).Neg(random.Int(n, random.Stream)), rnd()}
	g1, h1 := b.G1.V.String(), b.H1.V.String()
	neg, pos := 0, 0
	seen := map[string]bool{}
	for _, x := range vals {
		for _, r := range vals {
			X, R := x.String(), r.String()
			c := b.CommitWithR(x, r)
			if c.V.Cmp(com(x, r)) != 0 {
				fail("CommitWithR(%v,%v) is not g1^x*h1^r mod N", x, r)
			}
			if x.String() != X || r.String() != R || b.G1.V.String() != g1 || b.H1.V.String() != h1 || b.N.Cmp(n) != 0 {
				fail("CommitWithR(%v,%v) changed its inputs or the base", X, R)
			}
		}
		c, r := b.Commit(x)
		if c.V.Cmp(com(x, r)) != 0 {
			fail("Commit(%v) does not open with the returned randomness %v", x, r)
		}
		if seen[r.String()] {
			fail("Commit(%v) reused randomness", x)
		}
		seen[r.String()] = true
		if new(big.Int).Abs(r).Cmp(b.RandomRadius) > 0 {
			fail("Commit(%v): randomness %v outside the radius", x, r)
		}
	}
	big0 := 0
	for i := 0; i < 60; i++ {
		r := b.genRandomSecret()
		if r.Sign() < 0 {
			neg++
		} else {
			pos++
		}
		if new(big.Int).Abs(r).Cmp(n) > 0 {
			big0++
		}
		if new(big.Int).Abs(r).Cmp(b.RandomRadius) > 0 {
			fail("genRandomSecret outside the radius: %v", r)
		}
		if seen[r.String()] {
			fail("genRandomSecret repeats %v", r)
		}
		seen[r.String()] = true
	}
	if neg == 0 || pos == 0 || big0 == 0 {
		fail("genRandomSecret: 60 draws do not cover the radius around zero")
	}
	pts := []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(n, big.NewInt(1)), random.Int(n, random.Stream), random.Int(n, random.Stream)}
	for _, x := range pts {
		for _, y := range pts {
			X, Y := PointFromRaw(new(big.Int).Set(x), n), PointFromRaw(new(big.Int).Set(y), n)
			chk := func(nm string, got *Point, want *big.Int) {
				if got.V.Cmp(want.Mod(want, n)) != 0 {
					fail("%s of %v and %v modulo N is wrong", nm, x, y)
				}
				if X.V.Cmp(x) != 0 || Y.V.Cmp(y) != 0 {
					fail("%s of %v and %v changed an operand", nm, x, y)
				}
			}
			chk("Add", b.Point().Add(X, Y), new(big.Int).Add(x, y))
			chk("Sub", b.Point().Sub(X, Y), new(big.Int).Sub(x, y))
			chk("Mul", PointFromN(n).Mul(X, Y), new(big.Int).Mul(x, y))
			if X.Equal(Y) != (x.Cmp(y) == 0) {
				fail("Equal(%v,%v) is wrong", x, y)
			}
		}
		for _, e := range vals {
			if x.Sign() == 0 && e.Sign() < 0 {
				continue
			}
			X := PointFromRaw(new(big.Int).Set(x), n)
			if b.Point().Exp(X, e).V.Cmp(zvExp(b, X, e)) != 0 && x.Sign() != 0 {
				fail("Exp(%v,%v) is wrong", x, e)
			}
			if X.V.Cmp(x) != 0 {
				fail("Exp changed its base")
			}
			Y := PointFromRaw(new(big.Int).Set(x), n)
			if Y.Exp(Y, e).V.Cmp(zvExp(b, X, e)) != 0 && x.Sign() != 0 {
				fail("in-place Exp(%v,%v) is wrong", x, e)
			}
		}
		X := b.Point().SetBigInt(new(big.Int).Set(x))
		if X.V.Cmp(x) != 0 || X.ToBigInt().Cmp(x) != 0 || b.Point().FromBinary(X.ToBinary()).V.Cmp(x) != 0 || X.M.Cmp(n) != 0 {
			fail("conversion of %v", x)
		}
	}
}
