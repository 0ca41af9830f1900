package fujiokam

import (
	"math/big"
	"testing"
	"crypto/sha256"

	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

func zvBig(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }
func zvBase() *FujiOkamBase {
	p := zvBig("10144520506260765859590195611018097205184583127451838466618919711194501404004249961234533515955706013552414491571832368970922764307902791563111780207925203")
	q := zvBig("12265581865684958141271858147612258425011930850854904856269546242858680058794420653650903858565435607057761987520132472458241026949490304080598491390213843")
	n := new(big.Int).Mul(p, q)
	r := new(big.Int).Mul(new(big.Int).Exp(big.NewInt(2), big.NewInt(80), nil), n)
	b := &FujiOkamBase{Suite: nist.NewAES128SHA256QR512(), N: n, RandomRadius: r, RandomDiameter: new(big.Int).Mul(r, big.NewInt(2))}
	b.P = new(big.Int).Rsh(p, 1)
	b.Q = new(big.Int).Rsh(q, 1)
	h := random.Int(n, random.Stream)
	h.Mul(h, h).Mod(h, n)
	b.H1 = &Point{V: *h, M: n}
	gen := func() (*Point, *big.Int) {
		a := random.Int(b.RandomDiameter, random.Stream)
		a.Sub(a, b.RandomRadius)
		return &Point{V: *new(big.Int).Exp(h, a, n), M: n}, a
	}
	b.G1, b.alpha1 = gen()
	b.G2, b.alpha2 = gen()
	b.G3, b.alpha3 = gen()
	b.G4, b.alpha4 = gen()
	b.G5, b.alpha5 = gen()
	b.G6, b.alpha6 = gen()
	return b
}
func zvExp(b *FujiOkamBase, g *Point, e *big.Int) *big.Int {
	v := new(big.Int).Set(&g.V)
	x := new(big.Int).Set(e)
	if x.Sign() < 0 {
		v.ModInverse(v, b.N)
		x.Neg(x)
	}
	return v.Exp(v, x, b.N)
}
func zvE(ps ...*big.Int) *big.Int {
	h := sha256.New()
	for _, p := range ps {
		h.Write(p.Bytes())
	}
	return new(big.Int).SetBytes(h.Sum(nil))
}
func zvRef(b *FujiOkamBase, cx *Point, a *ARGnonneg) (bool, bool) {
	n := b.N
	e := zvE(&cx.V, a.Commitrx, a.C, a.Cr)
	sq := func(x *big.Int) *big.Int { return new(big.Int).Mul(x, x) }
	d := new(big.Int).Mul(big.NewInt(4), a.X_)
	d.Add(d, e).Mul(d, e)
	d.Sub(d, sq(a.A_)).Sub(d, sq(a.B_)).Sub(d, sq(a.D_))
	prod := func(v ...*big.Int) *big.Int {
		r := big.NewInt(1)
		for _, x := range v {
			r.Mul(r, x).Mod(r, n)
		}
		return r
	}
	l1 := prod(new(big.Int).Exp(a.C, e, n), a.Cr)
	r1 := prod(zvExp(b, b.G2, a.X_), zvExp(b, b.G3, a.A_), zvExp(b, b.G4, a.B_), zvExp(b, b.G5, a.D_), zvExp(b, b.G6, d), zvExp(b, b.H1, a.R_))
	l2 := prod(new(big.Int).Exp(&cx.V, e, n), a.Commitrx)
	r2 := prod(zvExp(b, b.G1, a.X_), zvExp(b, b.H1, a.R))
	return l1.Cmp(r1) == 0, l2.Cmp(r2) == 0
}
func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	b := zvBase()
	n := b.N
	cp := func(a *ARGnonneg) *ARGnonneg {
		s := func(x *big.Int) *big.Int { return new(big.Int).Set(x) }
		return &ARGnonneg{s(a.Commitrx), s(a.C), s(a.Cr), s(a.R), s(a.X_), s(a.A_), s(a.B_), s(a.D_), s(a.R_)}
	}
	check := func(what string, cx *Point, a *ARGnonneg) {
		defer func() {
			if e := recover(); e != nil {
				fail("%s: the verifier panics: %v", what, e)
			}
		}()
		p, q := zvRef(b, cx, a)
		if got := b.VerifyNonneg(cx, a); got != (p && q) {
			fail("%s: verifier answers %v, but the equations hold: %v %v (argument %v)", what, got, p, q, *a)
		}
	}
	inv := func(x *big.Int) *big.Int { return new(big.Int).ModInverse(x, n) }
	for _, v := range []int64{0, 3, 17} {
		x := big.NewInt(v)
		cx, r := b.Commit(x)
		a := b.ProveNonneg(x, cx, r)
		check("honest", cx, a)
		fs := func(c *ARGnonneg) []**big.Int {
			return []**big.Int{&c.Commitrx, &c.C, &c.Cr, &c.R, &c.X_, &c.A_, &c.B_, &c.D_, &c.R_}
		}
		for i := 0; i < 9; i++ {
			c := cp(a)
			f := fs(c)[i]
			(*f).Add(*f, big.NewInt(1))
			check("one component changed", cx, c)
			c = cp(a)
			f = fs(c)[i]
			*f = new(big.Int).Neg(*f)
			if i >= 3 {
				check("one component negated", cx, c)
			}
			for _, z := range []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(-1), n, random.Int(n, random.Stream)} {
				c = cp(a)
				*fs(c)[i] = new(big.Int).Set(z)
				check("one component replaced", cx, c)
			}
			for _, z := range []*big.Int{n, new(big.Int).Neg(n), b.RandomDiameter} {
				c = cp(a)
				(*fs(c)[i]).Add(*fs(c)[i], z)
				if i >= 3 {
					check("one component shifted", cx, c)
				}
			}
		}
		other, _ := b.Commit(x)
		check("other commitment", other, a)
		check("shifted commitment", b.Point().Mul(cx, b.G1), a)
	}
	// forgeries for a commitment to a negative value, for every way of leaving something out of the challenge
	cneg, _ := b.Commit(big.NewInt(-5))
	rnd := func() *big.Int { return random.Int(n, random.Stream) }
	mul := func(v ...*big.Int) *big.Int {
		r := big.NewInt(1)
		for _, x := range v {
			r.Mul(r, x).Mod(r, n)
		}
		return r
	}
	forge := func(what string, mask int, base *Point, only int) {
		// responses first, then the commitments that the challenge leaves out
		a := &ARGnonneg{Commitrx: rnd(), C: rnd(), Cr: rnd(), R: rnd(), X_: rnd(), A_: rnd(), B_: rnd(), D_: rnd(), R_: rnd()}
		var in []*big.Int
		for i, p := range []*big.Int{&base.V, a.Commitrx, a.C, a.Cr} {
			if mask&(1<<uint(i)) != 0 {
				in = append(in, p)
			}
		}
		e := zvE(in...)
		sq := func(x *big.Int) *big.Int { return new(big.Int).Mul(x, x) }
		d := new(big.Int).Mul(big.NewInt(4), a.X_)
		d.Add(d, e).Mul(d, e)
		d.Sub(d, sq(a.A_)).Sub(d, sq(a.B_)).Sub(d, sq(a.D_))
		r1 := mul(zvExp(b, b.G2, a.X_), zvExp(b, b.G3, a.A_), zvExp(b, b.G4, a.B_), zvExp(b, b.G5, a.D_), zvExp(b, b.G6, d), zvExp(b, b.H1, a.R_))
		r2 := mul(zvExp(b, b.G1, a.X_), zvExp(b, b.H1, a.R))
		if mask&8 == 0 && only != 2 {
			a.Cr = mul(r1, inv(new(big.Int).Exp(a.C, e, n)))
		}
		if mask&2 == 0 && only != 1 {
			a.Commitrx = mul(r2, inv(new(big.Int).Exp(&base.V, e, n)))
		}
		check(what, base, a)
	}
	for mask := 0; mask < 15; mask++ {
		forge("forged argument for a negative value", mask, cneg, 0)
		forge("only the first equation holds", mask, cneg, 1)
		forge("only the second equation holds", mask, cneg, 2)
	}
	// first equation honest for another value, second equation completed after the challenge
	for _, v := range []int64{0, 9} {
		x := big.NewInt(v)
		c0, r0 := b.Commit(x)
		a := b.ProveNonneg(x, c0, r0)
		for _, in := range [][]*big.Int{{&cneg.V, a.C, a.Cr}, {a.C, a.Cr}, {&cneg.V, a.Commitrx, a.C, a.Cr}, {&c0.V, a.Commitrx, a.C, a.Cr}} {
			c := cp(a)
			e := zvE(in...)
			c.Commitrx = mul(zvExp(b, b.G1, c.X_), zvExp(b, b.H1, c.R), inv(new(big.Int).Exp(&cneg.V, e, n)))
			check("value-opening equation completed after the challenge", cneg, c)
		}
		check("argument for another commitment", cneg, a)
	}
	// hybrid: the prover run by the real code on a false claim, each equation correct alone
	x := big.NewInt(4)
	cx, r := b.Commit(x)
	for i := 0; i < 4; i++ {
		a := b.ProveNonneg(x, cx, r)
		a.R = new(big.Int).Add(a.R, b.RandomRadius)
		check("second equation fails", cx, a)
		a = b.ProveNonneg(x, cx, r)
		a.R_ = new(big.Int).Add(a.R_, big.NewInt(1))
		check("first equation fails", cx, a)
	}
	// a full simulation of the old protocol: first equation satisfied with challenge that omits commitrx
	for i := 0; i < 2; i++ {
		sx, sa, sb, sd, sr, rx, ra, rb, rd, rr, dl := big.NewInt(0), big.NewInt(1), big.NewInt(0), big.NewInt(0), rnd(), rnd(), rnd(), rnd(), rnd(), rnd(), new(big.Int)
		dl.Mul(big.NewInt(4), rx)
		t2 := new(big.Int).Mul(big.NewInt(2), ra)
		dl.Sub(dl, t2)
		C := mul(zvExp(b, b.G2, sx), zvExp(b, b.G3, sa), zvExp(b, b.G4, sb), zvExp(b, b.G5, sd), zvExp(b, b.G6, dl), zvExp(b, b.H1, sr))
		q := new(big.Int)
		for _, y := range []*big.Int{ra, rb, rd} {
			q.Sub(q, new(big.Int).Mul(y, y))
		}
		Cr := mul(zvExp(b, b.G2, rx), zvExp(b, b.G3, ra), zvExp(b, b.G4, rb), zvExp(b, b.G5, rd), zvExp(b, b.G6, q), zvExp(b, b.H1, rr))
		e := zvE(&cneg.V, C, Cr)
		lin := func(u, v *big.Int) *big.Int { w := new(big.Int).Mul(u, e); return w.Add(w, v) }
		a := &ARGnonneg{C: C, Cr: Cr, X_: lin(sx, rx), A_: lin(sa, ra), B_: lin(sb, rb), D_: lin(sd, rd), R_: lin(sr, rr), R: rnd()}
		a.Commitrx = mul(zvExp(b, b.G1, a.X_), zvExp(b, b.H1, a.R), inv(new(big.Int).Exp(&cneg.V, e, n)))
		check("forged argument for a negative value (commitrx chosen after the challenge)", cneg, a)
	}
}
