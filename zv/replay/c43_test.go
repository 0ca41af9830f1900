package client

import (
	"crypto/sha256"
	"math/big"
	"testing"
	"zRep/cmd/bridge"
	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	fb := zvlib.FO()
	pb := pedersen.CreateBaseFromSuite(suite)
	wide := fb.RandomDiameter.BitLen()
	raw := pedersen_fujiokam.SecretToBigInt
	seen := map[string]bool{}
	// fresh: none of the values of one call was a value before, and no two are the same
	fresh := func(what string, vs ...*big.Int) {
		for _, v := range vs {
			if seen[v.String()] {
				fail("%s: a one-time random value is used again", what)
				return
			}
			seen[v.String()] = true
		}
	}
	size := func(what string, n int, vs ...*big.Int) {
		for _, v := range vs {
			if v.BitLen() < n-40 {
				fail("%s: a mask of %d bits instead of about %d", what, v.BitLen(), n)
			}
		}
	}
	equal := func(what string, arg *pedersen_fujiokam.ARGequal, x, rP, rF *big.Int) {
		un := func(s, v *big.Int) *big.Int { m := new(big.Int).Mul(arg.C, v); return m.Sub(s, m) }
		t1, t2 := un(arg.S1, x), un(arg.S2, rP)
		size(what, 512, t1, t2)
		ms := []*big.Int{t1, t2}
		if rF != nil {
			t3 := un(arg.S3, rF)
			size(what, 512, t3)
			ms = append(ms, t3)
		}
		fresh(what, ms...)
	}
	nonneg := func(what string, arg *fujiokam.ARGnonneg, x *big.Int, com *fujiokam.Point, rc *big.Int) {
		h := sha256.New()
		for _, b := range []*big.Int{&com.V, arg.Commitrx, arg.C, arg.Cr} {
			h.Write(b.Bytes())
		}
		e := new(big.Int).SetBytes(h.Sum(nil))
		e1 := new(big.Int).Add(e, big.NewInt(1))
		mod := func(v, m *big.Int) *big.Int { return new(big.Int).Mod(v, m) }
		rx := new(big.Int).Sub(arg.X_, new(big.Int).Mul(e, x))
		size(what, wide, rx, arg.A_, arg.B_, arg.D_)
		fresh(what, rx, arg.C, arg.Cr, arg.Commitrx)
		rs := []*big.Int{arg.X_, arg.A_, arg.B_, arg.D_, arg.R, arg.R_}
		for i := range rs {
			for j := 0; j < i; j++ {
				if mod(rs[i], e).Cmp(mod(rs[j], e)) == 0 {
					fail("%s: two answers have the same mask", what)
				}
			}
		}
		for _, r := range []*big.Int{arg.R, arg.R_} {
			if mod(r, e1).Sign() == 0 {
				fail("%s: the randomness of a commitment is its mask", what)
			}
		}
		if new(big.Int).Sub(arg.R, arg.R_).BitLen() < wide+e.BitLen()-40 {
			fail("%s: two commitments share their randomness", what)
		}
		if rc != nil {
			size(what, wide, new(big.Int).Sub(arg.R, new(big.Int).Mul(e, rc)))
		}
	}
	for i := 0; i < 6; i++ {
		for _, n := range []int64{0, 1, 5, 1000, 1 << 40} {
			x := big.NewInt(n)
			P, rP := pb.Commit(suite.Secret().SetInt64(n))
			F, rF := fb.Commit(x)
			size("commitment", wide, rF)
			size("commitment", 512, raw(rP))
			fresh("commitment", raw(rP), rF, &F.V, new(big.Int).SetBytes(zvlib.Bytes(P)))
			equal("proof of equality", pedersen_fujiokam.ProveEqual(pb, fb, suite.Secret().SetInt64(n), P, rP, F, rF), x, raw(rP), rF)
			nonneg("proof of non-negativity", fb.ProveNonneg(x, F, rF), x, F, rF)
		}
	}
	coord := zvlib.NewPeer()
	defer coord.Close()
	g := suite.Point().Mul(nil, zvlib.Rnd())
	key, nym := zvlib.Key(g)
	used := zvlib.Nonces{}
	R := zvlib.Rnd()
	for _, c := range [][2]int{{5, 1}, {5, 1}, {5, 5}, {5, 5}, {5, 0}, {0, 0}, {0, 0}, {1000, 3}, {1000, 3}} {
		com := pb.CommitWithR(zvlib.Sec(c[0]), R)
		dissentClient = &DissentClient{Suite: suite, G: g, PrivateKey: key, OnetimePseudoNym: nym, Reputation: c[0], R: R, PCommr: com,
			PedersenBase: pb, FujiOkamBase: fb, LocalAddr: zvlib.Local(), CoordinatorAddr: coord.Addr}
		if zvlib.Stops(func() { requestBridges(c[1]) }) {
			continue
		}
		ev := coord.Next()
		if ev == nil || ev.EventType != proto.REQUEST_BRIDGES {
			continue
		}
		pm := ev.Params
		by := func(k string) []byte { b, _ := pm[k].([]byte); return b }
		if zvlib.Stops(func() {
			rind := suite.Secret()
			if rind.UnmarshalBinary(by("rind")) != nil {
				return
			}
			rd := suite.Secret().Sub(R, rind)
			size("request", 512, raw(rd))
			F := fb.Point().FromBinary(by("FOCommd"))
			fresh("request", &F.V)
			x := big.NewInt(int64(c[0] - c[1]))
			equal("request", util.DecodeARGequal(by("arg_equal")), x, raw(rd), nil)
			nonneg("request", util.DecodeARGnonneg(by("arg_nonneg")), x, F, nil)
			if zvlib.Verifies(nym, bridge.MessageOfRequestBridges(pm), by("signature"), g) && used.Seen(abstract.Secret(key), by("signature")) {
				fail("request: two signatures share their one-time secret")
			}
		}) {
			continue
		}
	}
}
