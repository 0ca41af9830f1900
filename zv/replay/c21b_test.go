package client

import (
	"testing"
	"zRep/proto"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	for _, g := range []abstract.Point{nil, suite.Point().Mul(nil, zvlib.Rnd())} {
		x, nym := zvlib.Key(g)
		_, pub := zvlib.Key(nil)
		peer := zvlib.NewPeer()
		dissentClient = &DissentClient{Suite: suite, PrivateKey: x, PublicKey: pub, OnetimePseudoNym: nym, G: g, LocalAddr: zvlib.Local(), CoordinatorAddr: peer.Addr}
		for _, addr := range []string{"1.2.3.4:5", "", "bridge.example:443"} {
			postBridge(addr)
			e := peer.Next()
			if e == nil || e.EventType != proto.POST_BRIDGE {
				fail("no bridge post is sent: %v", e)
				continue
			}
			a, _ := e.Params["bridge_addr"].(string)
			n, _ := e.Params["nym"].([]byte)
			s, _ := e.Params["signature"].([]byte)
			if a != addr || string(n) != string(zvlib.Bytes(nym)) {
				fail("the post carries another address or pseudonym")
			}
			if !zvlib.Verifies(nym, append([]byte(addr), n...), s, g) {
				fail("the signature of the post does not verify under the pseudonym of the client")
			}
			if q := peer.Quiet(); q != nil {
				fail("a second message is sent")
			}
		}
		peer.Close()
	}
}
