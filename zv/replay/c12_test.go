package client

import (
	"testing"
	"zRep/cmd/bridge"
	"zRep/primitive/pedersen"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	fb := zvlib.FO()
	pb := pedersen.CreateBaseFromSuite(suite)
	for _, g := range []abstract.Point{nil, suite.Point().Mul(nil, zvlib.Rnd())} {
		x, nym := zvlib.Key(g)
		_, prov := zvlib.Key(nil)
		R := zvlib.Rnd()
		peer := zvlib.NewPeer()
		dissentClient = &DissentClient{Suite: suite, PrivateKey: x, OnetimePseudoNym: nym, G: g, LocalAddr: zvlib.Local(), CoordinatorAddr: peer.Addr,
			Reputation: 5, R: R, PCommr: pb.CommitWithR(zvlib.Sec(5), R), PedersenBase: pb, FujiOkamBase: fb,
			Assignments: []AssignmentInfo{{&bridge.Assignment{NymR: nym, Addr: "a", Nym: prov}, []byte{1, 2}}, {&bridge.Assignment{NymR: nym, Addr: "b", Nym: prov}, []byte{3}}}}
		used := zvlib.Nonces{}
		check := func(what string, f func(), msg func(pm map[string]interface{}) []byte) {
			for i := 0; i < 3; i++ {
				zvlib.Stops(f)
				e := peer.Next()
				if e == nil {
					fail("%s: nothing is sent", what)
					return
				}
				sig, _ := e.Params["signature"].([]byte)
				if used.Seen(x, sig) {
					fail("%s: the one-time secret of a signature is used again", what)
				}
				if !zvlib.Verifies(nym, msg(e.Params), sig, g) {
					fail("%s: the signature does not verify under the pseudonym for the bytes that are sent", what)
				}
			}
		}
		for _, a := range []string{"10.0.0.1:1", "10.0.0.1:1", "10.0.0.2:1", ""} {
			check("bridge", func() { postBridge(a) }, bridge.MessageOfPostBridge)
		}
		for _, n := range []int{0, 1, 1, 5} {
			check("request", func() { requestBridges(n) }, bridge.MessageOfRequestBridges)
		}
		for i := range dissentClient.Assignments {
			for _, f := range []int{1, -1} {
				check("vote", func() { sendVote(i, f) }, bridge.MessageOfVote)
			}
		}
		peer.Close()
	}
}
