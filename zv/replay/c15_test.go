package lrs

import (
	"bytes"
	"math/big"
	"testing"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	g := suite.Point().Mul(nil, zvlib.Rnd())
	base := CreateBase(util.PointToBigInt(g))
	n := 4
	m := []byte("message")
	var xs []abstract.Secret
	var ys []abstract.Point
	var yb []*big.Int
	for i := 0; i < n; i++ {
		x, y := zvlib.Key(g)
		xs, ys = append(xs, x), append(ys, y)
		yb = append(yb, util.PointToBigInt(y))
	}
	// what has to be hashed, from the description of the scheme
	hash := func(b []byte) *big.Int {
		h := suite.Hash()
		h.Write(b)
		return new(big.Int).SetBytes(h.Sum(nil))
	}
	want := func(m []byte, n int, s *Signature, y []*big.Int) bool {
		if len(y) != n || len(s.S) != n || len(s.C) != n {
			return false
		}
		var L bytes.Buffer
		for _, v := range y {
			L.Write(v.Bytes())
		}
		hm := suite.Hash()
		hm.Write(m)
		ctx := new(big.Int).Exp(hash(append(hm.Sum(nil), L.Bytes()...)), big.NewInt(2), base.P)
		com := func(b *big.Int, s *big.Int, y *big.Int, c *big.Int) []byte {
			v := new(big.Int).Exp(b, s, base.P)
			v.Mul(v, new(big.Int).Exp(y, c, base.P)).Mod(v, base.P)
			return v.Bytes()
		}
		b := append([]byte{}, L.Bytes()...)
		b = append(b, s.Y0.Bytes()...)
		b = append(b, m...)
		sum := new(big.Int)
		for i := 0; i < n; i++ {
			b = append(b, com(base.G, s.S[i], y[i], s.C[i])...)
			sum.Add(sum, s.C[i])
		}
		for i := 0; i < n; i++ {
			b = append(b, com(ctx, s.S[i], s.Y0, s.C[i])...)
		}
		return sum.Mod(sum, base.Q).Cmp(new(big.Int).Mod(hash(b), base.Q)) == 0
	}
	check := func(what string, m []byte, n int, s *Signature, y []*big.Int) {
		var p []abstract.Point
		w := want(m, n, s, y)
		var a, b bool
		zvlib.Stops(func() { a = base.VerifyHelper(m, n, 0, s, y) })
		if a != w {
			fail("%s: accepted %v", what, a)
		}
		for i := range y {
			p = append(p, util.BigIntToPoint(suite, y[i]))
		}
		zvlib.Stops(func() { b = base.Verify(m, n, 0, s, p) })
		if b != w {
			fail("%s: accepted %v (group elements)", what, b)
		}
	}
	cp := func(s *Signature) *Signature {
		r := &Signature{Y0: new(big.Int).Set(s.Y0)}
		for i := range s.S {
			r.S = append(r.S, new(big.Int).Set(s.S[i]))
		}
		for i := range s.C {
			r.C = append(r.C, new(big.Int).Set(s.C[i]))
		}
		return r
	}
	one := big.NewInt(1)
	for pi := 0; pi < n; pi++ {
		s := base.Sign(m, n, pi, xs[pi], ys)
		check("genuine", m, n, s, yb)
		check("another message", []byte("Message"), n, s, yb)
		check("another message", []byte("messag"), n, s, yb)
		z := cp(s)
		z.Y0.Add(z.Y0, one)
		check("another tag", m, n, z, yb)
		for i := 0; i < n; i++ {
			z = cp(s)
			z.S[i].Add(z.S[i], one)
			check("another response", m, n, z, yb)
			z = cp(s)
			z.C[i].Add(z.C[i], one)
			check("another challenge", m, n, z, yb)
			z = cp(s)
			z.C[i].Add(z.C[i], one)
			z.C[(i+1)%n].Sub(z.C[(i+1)%n], one)
			check("challenges with the same sum", m, n, z, yb)
			y := append([]*big.Int{}, yb...)
			_, o := zvlib.Key(g)
			y[i] = util.PointToBigInt(o)
			check("another ring", m, n, s, y)
			y = append([]*big.Int{}, yb...)
			y[i], y[(i+1)%n] = y[(i+1)%n], y[i]
			check("ring in another order", m, n, s, y)
		}
		z = cp(s)
		z.C[0], z.C[1] = z.C[1], z.C[0]
		z.S[0], z.S[1] = z.S[1], z.S[0]
		check("components in another order", m, n, z, yb)
		// a forgery with a challenge that belongs to no position: its value is chosen after the hash is known
		for _, extra := range []int{1, 2} {
			z = cp(s)
			for i := range z.C {
				z.C[i] = big.NewInt(int64(100 + i))
			}
			h := sumOfHash(suite, base, m, z, yb)
			for _, c := range z.C {
				h.Sub(h, c)
			}
			z.C = append(z.C, h.Mod(h, base.Q))
			if extra == 2 {
				z.S = append(z.S, big.NewInt(1))
			}
			check("a challenge outside the ring", m, n, z, yb)
		}
		// fewer positions than ring members
		for k := 0; k < n; k++ {
			z = cp(s)
			z.S, z.C = z.S[:k], z.C[:k]
			check("missing components", m, n, z, yb)
			z = cp(s)
			z.S = z.S[:k]
			check("missing responses", m, n, z, yb)
			z = cp(s)
			z.C = z.C[:k]
			check("missing challenges", m, n, z, yb)
		}
		// a signature of the smaller ring, presented for the larger
		z = base.SignHelper(m, n-1, 0, util.SecretToBigInt(xs[0]), yb)
		check("commitments for a part of the ring", m, n-1, z, yb)
		check("commitments for a part of the ring", m, n, z, yb)
	}
}

// the hash of ring, tag, message and commitments, as the scheme describes it
func sumOfHash(suite abstract.Suite, base *LRSBase, m []byte, s *Signature, y []*big.Int) *big.Int {
	var b []byte
	for _, v := range y {
		b = append(b, v.Bytes()...)
	}
	h := suite.Hash()
	h.Write(m)
	hs := suite.Hash()
	hs.Write(append(h.Sum(nil), b...))
	ctx := new(big.Int).Exp(new(big.Int).SetBytes(hs.Sum(nil)), big.NewInt(2), base.P)
	b = append(b, s.Y0.Bytes()...)
	b = append(b, m...)
	com := func(g, s, y, c *big.Int) []byte {
		v := new(big.Int).Exp(g, s, base.P)
		v.Mul(v, new(big.Int).Exp(y, c, base.P)).Mod(v, base.P)
		return v.Bytes()
	}
	for i := range y {
		b = append(b, com(base.G, s.S[i], y[i], s.C[i])...)
	}
	for i := range y {
		b = append(b, com(ctx, s.S[i], s.Y0, s.C[i])...)
	}
	H := suite.Hash()
	H.Write(b)
	r := new(big.Int).SetBytes(H.Sum(nil))
	return r.Mod(r, base.Q)
}
