package pedersen_fujiokam

import (
	"math/big"
	"testing"
	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

func zvBig(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }
func zvBase() *fujiokam.FujiOkamBase {
	p := zvBig("10144520506260765859590195611018097205184583127451838466618919711194501404004249961234533515955706013552414491571832368970922764307902791563111780207925203")
	q := zvBig("12265581865684958141271858147612258425011930850854904856269546242858680058794420653650903858565435607057761987520132472458241026949490304080598491390213843")
	n := new(big.Int).Mul(p, q)
	r := new(big.Int).Mul(new(big.Int).Exp(big.NewInt(2), big.NewInt(80), nil), n)
	b := &fujiokam.FujiOkamBase{Suite: nist.NewAES128SHA256QR512(), N: n, RandomRadius: r, RandomDiameter: new(big.Int).Mul(r, big.NewInt(2))}
	b.P = new(big.Int).Rsh(p, 1)
	b.Q = new(big.Int).Rsh(q, 1)
	h := random.Int(n, random.Stream)
	h.Mul(h, h).Mod(h, n)
	b.H1 = &fujiokam.Point{V: *h, M: n}
	gen := func() (*fujiokam.Point, *big.Int) {
		a := random.Int(b.RandomDiameter, random.Stream)
		a.Sub(a, b.RandomRadius)
		return &fujiokam.Point{V: *new(big.Int).Exp(h, a, n), M: n}, a
	}
	b.G1, _ = gen()
	b.G2, _ = gen()
	b.G3, _ = gen()
	b.G4, _ = gen()
	b.G5, _ = gen()
	b.G6, _ = gen()
	return b
}
func zvExp(b *fujiokam.FujiOkamBase, g *fujiokam.Point, e *big.Int) *big.Int {
	v := new(big.Int).Set(&g.V)
	x := new(big.Int).Set(e)
	if x.Sign() < 0 {
		v.ModInverse(v, b.N)
		x.Neg(x)
	}
	return v.Exp(v, x, b.N)
}
func zvRef(pb *pedersen.PedersenBase, fb *fujiokam.FujiOkamBase, P abstract.Point, F *fujiokam.Point, a *ARGequal) bool {
	s := pb.Suite
	sec := func(i *big.Int) abstract.Secret { x := s.Secret().(*nist.Int); x.V.Mod(i, x.M); return x }
	T1 := s.Point().Mul(pb.GT, sec(a.S1))
	T1.Add(T1, s.Point().Mul(pb.HT, sec(a.S2)))
	T1.Add(T1, s.Point().Mul(P, sec(new(big.Int).Neg(a.C))))
	v := zvExp(fb, fb.G1, a.S1)
	v.Mul(v, zvExp(fb, fb.H1, a.S3)).Mod(v, fb.N)
	v.Mul(v, zvExp(fb, F, new(big.Int).Neg(a.C))).Mod(v, fb.N)
	h := s.Hash()
	b0, _ := P.MarshalBinary()
	b1, _ := T1.MarshalBinary()
	h.Write(b0)
	h.Write(F.V.Bytes())
	h.Write(b1)
	h.Write(v.Bytes())
	return a.C.Cmp(new(big.Int).SetBytes(h.Sum(nil))) == 0
}
func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := nist.NewAES128SHA256QR512()
	rnd := func() abstract.Secret { return suite.Secret().Pick(random.Stream) }
	raw := func(s abstract.Secret) *big.Int { return new(big.Int).Set(&s.(*nist.Int).V) }
	q := new(big.Int).Set(suite.Secret().(*nist.Int).M)
	fb := zvBase()
	pb := pedersen.CreateBaseFromSuite(suite)
	check := func(what string, P abstract.Point, F *fujiokam.Point, a *ARGequal) bool {
		defer func() {
			if e := recover(); e != nil {
				fail("%s: the verifier panics: %v", what, e)
			}
		}()
		ref := zvRef(pb, fb, P, F, a)
		got := VerifyEqual(pb, fb, P, F, a)
		if got != ref {
			fail("%s: verifier answers %v, the challenge equation says %v", what, got, ref)
		}
		return got
	}
	for i := 0; i < 4; i++ {
		x, rp := rnd(), rnd()
		if i == 1 {
			x = suite.Secret().SetInt64(3)
		}
		P := pb.CommitWithR(x, rp)
		F, rf := fb.Commit(raw(x))
		a := ProveEqual(pb, fb, x, P, rp, F, rf)
		check("honest", P, F, a)
		cp := func() *ARGequal {
			s := func(x *big.Int) *big.Int { return new(big.Int).Set(x) }
			return &ARGequal{s(a.C), s(a.S1), s(a.S2), s(a.S3)}
		}
		for k := 0; k < 4; k++ {
			for _, d := range []*big.Int{big.NewInt(1), big.NewInt(-1), q, fb.N} {
				c := cp()
				f := []*big.Int{c.C, c.S1, c.S2, c.S3}[k]
				f.Add(f, d)
				check("one component changed", P, F, c)
			}
			c := cp()
			f := []*big.Int{c.C, c.S1, c.S2, c.S3}[k]
			f.Neg(f)
			check("one component negated", P, F, c)
			c = cp()
			*[]*big.Int{c.C, c.S1, c.S2, c.S3}[k] = *big.NewInt(0)
			check("one component zero", P, F, c)
		}
		for mask := 0; mask < 16; mask++ {
			c := cp()
			d := &ARGequal{big.NewInt(0), big.NewInt(0), big.NewInt(0), big.NewInt(0)}
			for k, f := range []*big.Int{c.C, c.S1, c.S2, c.S3} {
				if mask>>uint(k)&1 != 0 {
					f.SetInt64(0)
					[]*big.Int{d.C, d.S1, d.S2, d.S3}[k].SetInt64(1)
				}
			}
			check("several components zero", P, F, c)
			check("several components one", P, F, d)
			check("several components zero, no commitments", suite.Point().Null(), &fujiokam.Point{V: *big.NewInt(1), M: fb.N}, c)
		}
		P2, _ := pb.Commit(x)
		F2, _ := fb.Commit(raw(x))
		check("other Pedersen commitment", P2, F, a)
		check("other integer commitment", P, F2, a)
		check("Pedersen commitment shifted", suite.Point().Add(P, pb.GT), F, a)
		check("integer commitment shifted", P, fb.Point().Mul(F, fb.G1), a)
		// one-sided arguments and forgeries in which something is left out of the challenge
		y := rnd()
		PY := pb.CommitWithR(y, rp)
		check("argument of another value, Pedersen side", PY, F, a)
		FY, rfy := fb.Commit(raw(y))
		check("argument of another value, integer side", P, FY, a)
		check("argument made for unequal values", PY, F, ProveEqual(pb, fb, x, PY, rp, F, rf))
		check("argument made for unequal values", P, FY, ProveEqual(pb, fb, x, P, rp, FY, rfy))
		for mask := 0; mask < 16; mask++ {
			t1, t2, t3, t4 := rnd(), rnd(), rnd(), rnd()
			hash := func(P abstract.Point, F *fujiokam.Point, T1 abstract.Point, T2 *fujiokam.Point) *big.Int {
				h := suite.Hash()
				if mask&1 != 0 {
					b, _ := P.MarshalBinary()
					h.Write(b)
				}
				if mask&2 != 0 {
					h.Write(F.V.Bytes())
				}
				if mask&4 != 0 {
					b, _ := T1.MarshalBinary()
					h.Write(b)
				}
				if mask&8 != 0 {
					h.Write(T2.V.Bytes())
				}
				return new(big.Int).SetBytes(h.Sum(nil))
			}
			// different exponents on the two sides, reconciled modulo q by the value of F when F is not hashed
			T1, T2 := pb.CommitWithR(t1, t2), fb.CommitWithR(raw(t3), raw(t4))
			c := hash(P, F, T1, T2)
			lin := func(k, u, v *big.Int) *big.Int { w := new(big.Int).Mul(k, u); return w.Add(w, v) }
			if mask&2 == 0 {
				// u = x + (t1-t3)/c mod q ; F commits to u
				ci := new(big.Int).ModInverse(new(big.Int).Mod(c, q), q)
				u := new(big.Int).Sub(raw(t1), raw(t3))
				u.Mul(u, ci).Add(u, raw(x)).Mod(u, q)
				FU, ru := fb.Commit(u)
				arg := &ARGequal{c, lin(c, u, raw(t3)), lin(c, raw(rp), raw(t2)), lin(c, ru, raw(t4))}
				if check("forged: integer commitment chosen after the challenge", P, FU, arg) && u.Cmp(raw(x)) != 0 {
					fail("commitments to %v and %v accepted as equal", x, u)
				}
			}
			// both sides honest, for another representative of the challenge
			{
				U1, U2 := pb.CommitWithR(t1, t2), fb.CommitWithR(raw(t1), raw(t4))
				for _, k := range []*big.Int{q, new(big.Int).Neg(q), fb.N, new(big.Int).Lsh(big.NewInt(1), 256), new(big.Int).Lsh(big.NewInt(1), 64)} {
					cc := hash(P, F, U1, U2)
					cc.Add(cc, k)
					check("responses for a shifted challenge", P, F, &ARGequal{cc, lin(cc, raw(x), raw(t1)), lin(cc, raw(rp), raw(t2)), lin(cc, rf, raw(t4))})
				}
			}
			// simulate one or both sides: responses first
			s1, s2, s3 := raw(rnd()), raw(rnd()), raw(rnd())
			for v := 0; v < 3; v++ {
				U1, U2 := pb.CommitWithR(t1, t2), fb.CommitWithR(raw(t1), raw(t4))
				cc := hash(PY, F, U1, U2)
				arg := &ARGequal{cc, s1, s2, s3}
				if v == 1 { // integer side honest
					arg = &ARGequal{cc, lin(cc, raw(x), raw(t1)), s2, lin(cc, rf, raw(t4))}
				}
				if v == 2 { // Pedersen side honest for its own value
					arg = &ARGequal{cc, lin(cc, raw(y), raw(t1)), lin(cc, raw(rp), raw(t2)), s3}
				}
				check("forged: one side simulated", PY, F, arg)
			}
		}
	}
}
