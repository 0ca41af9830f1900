package server

import (
	"testing"
	"zRep/primitive/pedersen"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	fb := zvlib.FO()
	x, pub := zvlib.Key(nil)
	co := zvlib.NewPeer()
	defer co.Close()
	seen := map[string]bool{}
	_, h0 := zvlib.Key(nil)
	for i := 0; i < 8; i++ {
		anonServer = &AnonServer{Suite: suite, PrivateKey: x, PublicKey: pub, LocalAddr: zvlib.Local(), NextHop: co.Addr, PreviousHop: co.Addr, Roundkey: zvlib.Rnd(),
			KeyMap: map[string]abstract.Point{}, PedersenBase: pedersen.CreateMinimalBaseFromSuite(suite)}
		if i%2 == 1 {
			anonServer.KeyMap = nil
		}
		if i%4 > 1 {
			anonServer.PreviousHop, anonServer.IsConnected = nil, true
		}
		if i > 5 {
			anonServer.Roundkey = nil
		}
		_, anonServer.PedersenBase.HT = zvlib.Key(nil)
		gt := zvlib.Bytes(anonServer.PedersenBase.GT)
		if zvlib.Stops(func() {
			handleServerRegisterReply(map[string]interface{}{"reply": true, "prev_server": "127.0.0.1:4711", "h": zvlib.Bytes(h0), "n": fb.N.Bytes(), "g1": fb.G1.ToBinary(), "g2": fb.G2.ToBinary(),
				"g3": fb.G3.ToBinary(), "g4": fb.G4.ToBinary(), "g5": fb.G5.ToBinary(), "g6": fb.G6.ToBinary(), "h1": fb.H1.ToBinary()}, co.Addr)
		}) {
			fail("the server stops on its registration reply")
			return
		}
		e := co.Next()
		if e == nil || e.EventType != proto.UPDATE_PEDERSEN_H {
			fail("no contribution to the generator")
			return
		}
		b, ok := e.Params["h"].([]byte)
		if !ok || len(e.Params) != 1 || seen[string(b)] || util.DecodePoint(suite, b).Equal(h0) || util.DecodePoint(suite, b).Equal(suite.Point().Mul(h0, x)) {
			fail("the contribution is not a new secret power")
		}
		for s := int64(0); ok && s < 3000; s++ {
			if util.DecodePoint(suite, b).Equal(suite.Point().Mul(h0, suite.Secret().SetInt64(s))) {
				fail("the exponent of the contribution is %d", s)
			}
		}
		seen[string(b)] = true
		_, h := zvlib.Key(nil)
		if zvlib.Stops(func() { handleBroadcastPedersenH(map[string]interface{}{"h": zvlib.Bytes(h)}) }) {
			fail("the server stops on the parameters")
			return
		}
		if !anonServer.PedersenBase.HT.Equal(h) {
			fail("the generator is not taken over")
		}
		if string(zvlib.Bytes(anonServer.PedersenBase.GT)) != string(gt) {
			fail("the first generator changed")
		}
		if !zvlib.Stops(func() { handleBroadcastPedersenH(map[string]interface{}{"h": []byte{1, 2}}) }) && !anonServer.PedersenBase.HT.Equal(h) {
			fail("a malformed generator is taken over")
		}
	}
}
