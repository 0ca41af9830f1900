package pedersen

import (
	"testing"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

func TestZV(t *testing.T) {
	suite := nist.NewAES128SHA256QR512()
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	pick := func() abstract.Secret { return suite.Secret().Pick(random.Stream) }
	g0 := suite.Point().Mul(nil, suite.Secret().One())
	mb := CreateMinimalBaseFromSuite(suite)
	if !mb.GT.Equal(g0) || !mb.HT.Equal(g0) || mb.Suite == nil {
		fail("CreateMinimalBaseFromSuite: generators are not the suite generator")
	}
	cb, cb2 := CreateBaseFromSuite(suite), CreateBaseFromSuite(suite)
	if !cb.GT.Equal(g0) || cb.HT.Equal(g0) || cb.HT.Equal(cb2.HT) {
		fail("CreateBaseFromSuite: g is not the generator or h is not g^s for fresh s")
	}
	neutral := suite.Point().Null()
	for round := 0; round < 6; round++ {
		base := cb
		if round >= 2 {
			base = &PedersenBase{Suite: suite, GT: suite.Point().Mul(nil, pick()), HT: suite.Point().Mul(nil, pick())}
		}
		if round == 4 {
			base = mb
		}
		vals := []abstract.Secret{suite.Secret().Zero(), suite.Secret().One(), suite.Secret().SetInt64(-1), suite.Secret().SetInt64(7), pick(), pick()}
		for _, x := range vals {
			for _, r := range vals {
				G, H, X, R := base.GT.String(), base.HT.String(), x.String(), r.String()
				want := suite.Point().Add(suite.Point().Mul(base.GT, x), suite.Point().Mul(base.HT, r))
				c := base.CommitWithR(x, r)
				if !c.Equal(want) {
					fail("CommitWithR(%v,%v) is not g^x*h^r", x, r)
				}
				if !base.Verify(x, r, want) {
					fail("Verify(%v,%v) rejects g^x*h^r", x, r)
				}
				for _, d := range []abstract.Point{suite.Point().Add(want, g0), suite.Point().Add(want, base.HT), neutral, g0, suite.Point().Neg(want)} {
					if base.Verify(x, r, d) != d.Equal(want) {
						fail("Verify(%v,%v) wrong for another commitment", x, r)
					}
				}
				for _, y := range vals {
					w := suite.Point().Add(suite.Point().Mul(base.GT, x), suite.Point().Mul(base.HT, y))
					if base.Verify(x, r, w) != w.Equal(want) {
						fail("Verify(%v,%v) wrong for randomness %v", x, r, y)
					}
					w = suite.Point().Add(suite.Point().Mul(base.GT, y), suite.Point().Mul(base.HT, r))
					if base.Verify(x, r, w) != w.Equal(want) {
						fail("Verify(%v,%v) wrong for value %v", x, r, y)
					}
				}
				pc, rr := base.Commit(x)
				if !pc.Equal(suite.Point().Add(suite.Point().Mul(base.GT, x), suite.Point().Mul(base.HT, rr))) || !base.Verify(x, rr, pc) {
					fail("Commit(%v) does not open with the returned randomness", x)
				}
				_, rr2 := base.Commit(x)
				if rr2.Equal(rr) {
					fail("Commit reuses its randomness")
				}
				for _, o := range vals[:4] {
					c2 := base.CommitWithR(o, o)
					c2s, cs := c2.String(), c.String()
					s, df := base.Add(c, c2), base.Sub(c, c2)
					if !s.Equal(suite.Point().Add(want, c2)) || !base.Verify(suite.Secret().Add(x, o), suite.Secret().Add(r, o), s) {
						fail("Add of commitments wrong for %v,%v", x, o)
					}
					if !df.Equal(suite.Point().Sub(want, c2)) || !base.Verify(suite.Secret().Sub(x, o), suite.Secret().Sub(r, o), df) {
						fail("Sub of commitments wrong for %v,%v", x, o)
					}
					if c2.String() != c2s || c.String() != cs {
						fail("Add/Sub changed an operand")
					}
				}
				cs := c.String()
				rc, e := base.Randomize(c)
				if !rc.Equal(suite.Point().Mul(want, e)) {
					fail("Randomize is not c^E for the returned E")
				}
				_, e2 := base.Randomize(c)
				if e2.Equal(e) {
					fail("Randomize reuses its exponent")
				}
				if c.String() != cs || base.GT.String() != G || base.HT.String() != H || x.String() != X || r.String() != R {
					fail("an input or the base was changed")
				}
			}
		}
		if t.Failed() {
			return
		}
	}
}
