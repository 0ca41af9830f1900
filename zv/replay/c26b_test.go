package client

import (
	"testing"
	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	for _, g := range []abstract.Point{nil, suite.Point().Mul(nil, zvlib.Rnd())} {
		x, nym := zvlib.Key(g)
		_, pub := zvlib.Key(nil)
		_, p1 := zvlib.Key(nil)
		_, p2 := zvlib.Key(nil)
		peer := zvlib.NewPeer()
		dissentClient = &DissentClient{Suite: suite, PrivateKey: x, PublicKey: pub, OnetimePseudoNym: nym, G: g, LocalAddr: zvlib.Local(), CoordinatorAddr: peer.Addr}
		as := []*bridge.Assignment{{NymR: nym, Addr: "a", Nym: p1}, {NymR: nym, Addr: "b", Nym: p2}}
		sg := [][]byte{{1, 2, 3}, {4, 5}}
		dissentClient.Assignments = []AssignmentInfo{{as[0], sg[0]}, {as[1], sg[1]}}
		for i := range as {
			for _, fb := range []int{1, -1, 5, -5, 0, 1 << 33, -(1 << 33)} {
				zvlib.Stops(func() { sendVote(i, fb) })
				e := peer.Next()
				if e == nil || e.EventType != proto.VOTE {
					fail("no vote is sent: %v", e)
					continue
				}
				want := 1
				if fb <= 0 {
					want = -1
				}
				f, _ := e.Params["feedback"].(int)
				if f != 1 && f != -1 {
					fail("feedback %d is sent", f)
				} else if f != want {
					fail("feedback %d is sent for the answer %d", f, fb)
				}
				a, _ := e.Params["assignment"].([]byte)
				s, _ := e.Params["signatures"].([]byte)
				n, _ := e.Params["nym"].([]byte)
				sig, _ := e.Params["signature"].([]byte)
				if string(a) != string(bridge.EncodeAssignment(as[i])) || string(s) != string(sg[i]) || string(n) != string(zvlib.Bytes(nym)) {
					fail("another assignment, signature list or voter is sent")
				}
				msg := append(append(append(append([]byte{}, n...), a...), s...), util.IntToByte(f)...)
				if !zvlib.Verifies(nym, msg, sig, g) {
					fail("the signature of the vote does not verify under the pseudonym of the client")
				}
			}
		}
		peer.Close()
	}
}
