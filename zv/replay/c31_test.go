package client

import (
	"testing"
	"zRep/cmd/bridge"
	"zRep/primitive/pedersen"
	"zRep/proto"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	fb := zvlib.FO()
	pb := pedersen.CreateBaseFromSuite(suite)
	coord := zvlib.NewPeer()
	defer coord.Close()
	for _, g := range []abstract.Point{suite.Point().Base(), suite.Point().Mul(nil, zvlib.Rnd())} {
		for _, c := range [][2]int{{5, 1}, {5, 5}, {5, 0}, {1000, 3}, {0, 0}, {1, 1}, {5, 6}, {0, 1}, {-2, 0}, {-2, -2}} {
			rep, ind := c[0], c[1]
			x, nym := zvlib.Key(g)
			R := zvlib.Rnd()
			com := pb.CommitWithR(zvlib.Sec(rep), R)
			dissentClient = &DissentClient{Suite: suite, G: g, PrivateKey: x, OnetimePseudoNym: nym, Reputation: rep, R: R, PCommr: com,
				PedersenBase: pb, FujiOkamBase: fb, LocalAddr: zvlib.Local(), CoordinatorAddr: coord.Addr}
			stopped := zvlib.Stops(func() { requestBridges(ind) })
			e := coord.Quiet()
			if ind > rep {
				if e != nil {
					fail("a request of %d above the reputation %d is sent", ind, rep)
				}
				continue
			}
			if stopped || e == nil || e.EventType != proto.REQUEST_BRIDGES {
				fail("no request of %d is sent at reputation %d", ind, rep)
				continue
			}
			pm := e.Params
			b, _ := pm["nym"].([]byte)
			sig, _ := pm["signature"].([]byte)
			if pm["ind"] != ind || string(b) != string(zvlib.Bytes(nym)) {
				fail("the request names another pseudonym or indicator")
				continue
			}
			if zvlib.Stops(func() {
				if !zvlib.Verifies(nym, bridge.MessageOfRequestBridges(pm), sig, g) {
					fail("the signature of a request of %d at reputation %d is refused", ind, rep)
				}
				if !bridge.VerifyInd(pm, com, suite, pb, fb) {
					fail("the proof of a request of %d at reputation %d is refused", ind, rep)
				}
			}) {
				fail("verifying a request of %d at reputation %d stops", ind, rep)
			}
			if !dissentClient.PCommr.Equal(com) || !dissentClient.R.Equal(R) || dissentClient.Reputation != rep {
				fail("the request changes the state of the client")
			}
		}
	}
}
