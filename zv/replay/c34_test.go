package coordinator

import (
	"net"
	"testing"
	"zRep/primitive/pedersen"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	fb := zvlib.FO()
	x, pub := zvlib.Key(nil)
	_, h := zvlib.Key(nil)
	for _, n := range []int{0, 1, 2, 3, 4, 9, 17} {
		anonCoordinator = &Coordinator{Suite: suite, PrivateKey: x, PublicKey: pub, LocalAddr: zvlib.Local(), PedersenBase: pedersen.CreateMinimalBaseFromSuite(suite),
			FujiOkamBase: fb, Clients: map[string]*net.TCPAddr{}}
		gt := zvlib.Bytes(anonCoordinator.PedersenBase.GT)
		anonCoordinator.PedersenBase.HT = suite.Point().Mul(nil, zvlib.Rnd())
		peers := []*zvlib.Peer{}
		for i := 0; i < n; i++ {
			p := zvlib.NewPeer()
			defer p.Close()
			peers = append(peers, p)
			_, k := zvlib.Key(nil)
			anonCoordinator.AddServer(p.Addr, k)
		}
		if zvlib.Stops(func() { handleUpdatePedersenH(map[string]interface{}{"h": zvlib.Bytes(h)}) }) {
			fail("a well formed generator stops the coordinator")
			return
		}
		if !anonCoordinator.PedersenBase.HT.Equal(h) {
			fail("the new generator is not taken over")
		}
		if string(zvlib.Bytes(anonCoordinator.PedersenBase.GT)) != string(gt) {
			fail("the first generator changed")
		}
		if zvlib.Stops(func() { configCommParams() }) {
			fail("sending the parameters stops the coordinator")
			return
		}
		for i, p := range peers {
			e := p.Next()
			if e == nil || e.EventType != proto.BCAST_PEDERSEN_H {
				fail("server %d of %d is not told the generator", i, n)
				continue
			}
			if b, ok := e.Params["h"].([]byte); !ok || !util.DecodePoint(suite, b).Equal(h) {
				fail("server %d is told another generator", i)
			}
		}
		for i, p := range peers {
			if p.Quiet() != nil {
				fail("server %d is told twice", i)
			}
		}
		if !anonCoordinator.PedersenBase.HT.Equal(h) || string(zvlib.Bytes(anonCoordinator.PedersenBase.GT)) != string(gt) {
			fail("sending the parameters changes them")
		}
	}
	if !zvlib.Stops(func() { handleUpdatePedersenH(map[string]interface{}{"h": []byte{1, 2}}) }) && !anonCoordinator.PedersenBase.HT.Equal(h) {
		fail("a malformed generator is taken over")
	}
}
