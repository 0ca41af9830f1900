package shuffle

import (
	"testing"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
)

// zvProve runs the honest prover and lets edit change its state before message n (1 p1, 2 p3, 3 p5, 4 p0, 5 p2, 6 p4) is sent
type zvCtx struct {
	proof.ProverContext
	n    int
	edit func(n int, msg interface{}) interface{}
}

func (c *zvCtx) Put(msg interface{}) error {
	c.n++
	return c.ProverContext.Put(c.edit(c.n, msg))
}

type zvIn struct {
	g, h, H    abstract.Point
	X, Y       []abstract.Point
	Xbar, Ybar []abstract.Point
	pi         []int
	beta       []abstract.Secret
}

func zvKey(g abstract.Point, suite abstract.Suite) (abstract.Secret, abstract.Point) {
	x := zvlib.Rnd()
	return x, suite.Point().Mul(g, x)
}

func zvInput(suite abstract.Suite, g abstract.Point, k int) *zvIn {
	in := &zvIn{g: g}
	_, in.h = zvKey(nil, suite)
	for i := 0; i < k; i++ {
		_, x := zvKey(nil, suite)
		_, y := zvKey(nil, suite)
		in.X, in.Y = append(in.X, x), append(in.Y, y)
		in.pi = append(in.pi, (i+1)%k)
		in.beta = append(in.beta, zvlib.Rnd())
	}
	for i := 0; i < k; i++ {
		p := in.pi[i]
		x := suite.Point().Mul(g, in.beta[p])
		y := suite.Point().Mul(in.h, in.beta[p])
		in.Xbar, in.Ybar = append(in.Xbar, x.Add(x, in.X[p])), append(in.Ybar, y.Add(y, in.Y[p]))
	}
	return in
}

func (in *zvIn) prove(suite abstract.Suite, edit func(n int, msg interface{}) interface{}) []byte {
	k := len(in.X)
	var prf []byte
	if zvlib.Stops(func() {
		p, err := proof.HashProve(suite, "PairShuffle", suite.Cipher(abstract.RandomKey), func(ctx proof.ProverContext) error {
			ps := (&PairShuffle{}).Init(suite, k)
			return ps.Prove(in.pi, in.g, in.h, in.beta, in.X, in.Y, suite.Cipher(abstract.RandomKey), &zvCtx{ctx, 0, edit})
		})
		if err == nil {
			prf = p
		}
	}) {
		return nil
	}
	return prf
}

func zvOK(suite abstract.Suite, g, h abstract.Point, X, Y, Xb, Yb []abstract.Point, prf []byte) bool {
	ok := false
	zvlib.Stops(func() {
		ok = proof.HashVerify(suite, "PairShuffle", Verifier(suite, g, h, X, Y, Xb, Yb), prf) == nil
	})
	return ok
}

func zvBump(suite abstract.Suite, p abstract.Point) abstract.Point {
	_, e := zvKey(nil, suite)
	return e.Add(e, p)
}
func zvBumpS(suite abstract.Suite, s abstract.Secret) abstract.Secret {
	return suite.Secret().Add(s, suite.Secret().One())
}

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	id := func(n int, m interface{}) interface{} { return m }
	for k := 2; k < 5; k++ {
		for _, g := range []abstract.Point{nil, suite.Point().Mul(nil, zvlib.Rnd())} {
			in := zvInput(suite, g, k)
			honest := in.prove(suite, id)
			if honest == nil || !zvOK(suite, in.g, in.h, in.X, in.Y, in.Xbar, in.Ybar, honest) {
				fail("an honest shuffle proof of %d pairs is rejected", k)
				return
			}
			// the statement
			for i := 0; i < k; i++ {
				for which, l := range [][]abstract.Point{in.X, in.Y, in.Xbar, in.Ybar} {
					o := l[i]
					l[i] = zvBump(suite, o)
					if zvOK(suite, in.g, in.h, in.X, in.Y, in.Xbar, in.Ybar, honest) {
						fail("a proof for %d pairs is accepted for another entry %d of list %d", k, i, which)
						return
					}
					l[i] = o
				}
			}
			if zvOK(suite, in.g, zvBump(suite, in.h), in.X, in.Y, in.Xbar, in.Ybar, honest) {
				fail("a proof is accepted for another key")
			}
			// the messages, one at a time, consistently with the challenges that follow from them
			type mut struct {
				n    int
				what string
				f    func(m interface{}, i int)
			}
			for _, mu := range []mut{
				{1, "Gamma", func(m interface{}, i int) { p := m.(*ega1); p.Gamma = zvBump(suite, p.Gamma) }},
				{1, "A", func(m interface{}, i int) { p := m.(*ega1); p.A[i] = zvBump(suite, p.A[i]) }},
				{1, "C", func(m interface{}, i int) { p := m.(*ega1); p.C[i] = zvBump(suite, p.C[i]) }},
				{1, "U", func(m interface{}, i int) { p := m.(*ega1); p.U[i] = zvBump(suite, p.U[i]) }},
				{1, "W", func(m interface{}, i int) { p := m.(*ega1); p.W[i] = zvBump(suite, p.W[i]) }},
				{1, "Lambda1", func(m interface{}, i int) { p := m.(*ega1); p.Lambda1 = zvBump(suite, p.Lambda1) }},
				{1, "Lambda2", func(m interface{}, i int) { p := m.(*ega1); p.Lambda2 = zvBump(suite, p.Lambda2) }},
				{2, "D", func(m interface{}, i int) { p := m.(*ega3); p.D[i] = zvBump(suite, p.D[i]) }},
				{3, "sigma", func(m interface{}, i int) { p := m.(*ega5); p.Zsigma[i] = zvBumpS(suite, p.Zsigma[i]) }},
				{3, "tau", func(m interface{}, i int) { p := m.(*ega5); p.Ztau = zvBumpS(suite, p.Ztau) }},
				{4, "the simple shuffle's X", func(m interface{}, i int) { p := m.(ssa0); p.X[i] = zvBump(suite, p.X[i]) }},
				{4, "the simple shuffle's Y", func(m interface{}, i int) { p := m.(ssa0); p.Y[i] = zvBump(suite, p.Y[i]) }},
				{5, "Theta", func(m interface{}, i int) { p := m.(ssa2); p.Theta[i] = zvBump(suite, p.Theta[i]) }},
				{5, "Theta (second half)", func(m interface{}, i int) { p := m.(ssa2); p.Theta[k+i] = zvBump(suite, p.Theta[k+i]) }},
				{6, "alpha", func(m interface{}, i int) { p := m.(ssa4); p.Zalpha[i] = zvBumpS(suite, p.Zalpha[i]) }},
				{6, "alpha (second half)", func(m interface{}, i int) {
					p := m.(ssa4)
					p.Zalpha[(k+i)%(2*k-1)] = zvBumpS(suite, p.Zalpha[(k+i)%(2*k-1)])
				}},
			} {
				for i := 0; i < k; i++ {
					prf := in.prove(suite, func(n int, m interface{}) interface{} {
						if n == mu.n {
							mu.f(m, i)
						}
						return m
					})
					if prf != nil && zvOK(suite, in.g, in.h, in.X, in.Y, in.Xbar, in.Ybar, prf) {
						fail("a proof for %d pairs with a wrong value %s[%d] is accepted", k, mu.what, i)
						return
					}
				}
			}
			// a list in which the second pair was multiplied into the first
			Xf, Yf := append([]abstract.Point{}, in.X...), append([]abstract.Point{}, in.Y...)
			Xf[0], Yf[0] = suite.Point().Add(in.X[0], in.X[1]), suite.Point().Add(in.Y[0], in.Y[1])
			for _, derived := range []bool{true, false} {
				if prf := zvForge(suite, in, derived); prf != nil && zvOK(suite, in.g, in.h, in.X, in.Y, Xf, Yf, prf) {
					fail("a proof is accepted for an output list in which pair 0 was replaced by the product of pairs 0 and 1 (%d pairs)", k)
					return
				}
			}
		}
	}
}

// zvForge: sigma_0 = rho_0, sigma_1 = rho_1 - rho_0, D_i = Gamma^sigma_i / W_i, with a simple shuffle over the vectors
// that follow from the commitments (then it is not a proof of anything) or over unrelated ones
func zvForge(suite abstract.Suite, in *zvIn, derived bool) []byte {
	k := len(in.X)
	g := in.g
	prf, err := proof.HashProve(suite, "PairShuffle", suite.Cipher(abstract.RandomKey), func(ctx proof.ProverContext) error {
		ps := (&PairShuffle{}).Init(suite, k)
		gamma := zvlib.Rnd()
		a := make([]abstract.Secret, k)
		w := make([]abstract.Secret, k)
		u := make([]abstract.Secret, k)
		ps.p1.Gamma = suite.Point().Mul(g, gamma)
		for i := range a {
			a[i], w[i], u[i] = zvlib.Rnd(), zvlib.Rnd(), zvlib.Rnd()
			ps.p1.A[i] = suite.Point().Mul(g, a[i])
			ps.p1.C[i] = suite.Point().Mul(ps.p1.Gamma, a[i])
			ps.p1.U[i] = suite.Point().Mul(g, u[i])
			ps.p1.W[i] = suite.Point().Mul(ps.p1.Gamma, w[i])
		}
		ps.p1.Lambda1, ps.p1.Lambda2 = suite.Point().Null(), suite.Point().Null()
		ctx.Put(&ps.p1)
		ctx.PubRand(&ps.v2)
		d := make([]abstract.Secret, k)
		for i := range a {
			ps.p5.Zsigma[i] = suite.Secret().Set(ps.v2.Zrho[i])
			if i == 1 {
				ps.p5.Zsigma[1].Sub(ps.v2.Zrho[1], ps.v2.Zrho[0])
			}
			d[i] = suite.Secret().Mul(gamma, suite.Secret().Sub(ps.p5.Zsigma[i], w[i]))
			ps.p3.D[i] = suite.Point().Mul(g, d[i])
		}
		ctx.Put(&ps.p3)
		ctx.PubRand(&ps.v4)
		ps.p5.Ztau = suite.Secret().Zero()
		ctx.Put(&ps.p5)
		r := make([]abstract.Secret, k)
		s := make([]abstract.Secret, k)
		for i := range a {
			r[i] = zvlib.Rnd()
			if derived {
				r[i] = suite.Secret().Add(a[i], suite.Secret().Mul(ps.v4.Zlambda, suite.Secret().Sub(ps.v2.Zrho[i], u[i])))
			}
			s[i] = suite.Secret().Mul(gamma, r[i])
			if derived {
				s[i] = suite.Secret().Add(suite.Secret().Mul(gamma, a[i]), suite.Secret().Mul(ps.v4.Zlambda, d[i]))
			}
		}
		return ps.pv6.Prove(suite.Point().Mul(g, suite.Secret().One()), gamma, r, s, suite.Cipher(abstract.RandomKey), ctx)
	})
	if err != nil {
		return nil
	}
	return prf
}
