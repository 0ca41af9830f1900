package server

import (
	"testing"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	fb := zvlib.FO()
	x, pub := zvlib.Key(nil)
	next, co := zvlib.NewPeer(), zvlib.NewPeer()
	defer next.Close()
	defer co.Close()
	rk := zvlib.Rnd()
	anonServer = &AnonServer{Suite: suite, PrivateKey: x, PublicKey: pub, LocalAddr: zvlib.Local(), NextHop: co.Addr, PreviousHop: co.Addr, Roundkey: rk, KeyMap: map[string]abstract.Point{}}
	_, h := zvlib.Key(nil)
	for _, prev := range []string{"127.0.0.1:4711", "127.0.0.1:1"} {
		anonServer.IsConnected = false
		if zvlib.Stops(func() {
			handleServerRegisterReply(map[string]interface{}{"reply": true, "prev_server": prev, "h": zvlib.Bytes(h), "n": fb.N.Bytes(), "g1": fb.G1.ToBinary(), "g2": fb.G2.ToBinary(),
				"g3": fb.G3.ToBinary(), "g4": fb.G4.ToBinary(), "g5": fb.G5.ToBinary(), "g6": fb.G6.ToBinary(), "h1": fb.H1.ToBinary()}, co.Addr)
		}) {
			fail("the server stops on its registration reply")
			return
		}
		if !anonServer.IsConnected || anonServer.PreviousHop == nil || anonServer.PreviousHop.String() != prev {
			fail("predecessor not kept")
		}
		b := anonServer.FujiOkamBase
		if b == nil || b.N.Cmp(fb.N) != 0 || !b.G1.Equal(fb.G1) || !b.G2.Equal(fb.G2) || !b.G3.Equal(fb.G3) || !b.G4.Equal(fb.G4) || !b.G5.Equal(fb.G5) || !b.G6.Equal(fb.G6) || !b.H1.Equal(fb.H1) {
			fail("parameters not kept")
		} else if b.RandomRadius.Cmp(fb.RandomRadius) != 0 || b.RandomDiameter.Cmp(fb.RandomDiameter) != 0 {
			fail("wrong randomness range")
		}
		e := co.Next()
		if e == nil || e.EventType != proto.UPDATE_PEDERSEN_H {
			fail("no update of h")
		} else if hb, ok := e.Params["h"].([]byte); !ok || util.DecodePoint(suite, hb).Equal(h) {
			fail("h is not raised to a secret power")
		}
	}
	if zvlib.Stops(func() { handleUpdateNextHop(map[string]interface{}{"next_hop": next.Addr.String()}) }) || anonServer.NextHop == nil || anonServer.NextHop.String() != next.Addr.String() {
		fail("successor not kept")
		return
	}
	var nk abstract.Point
	for i := 0; i < 6; i++ {
		_, k := zvlib.Key(nil)
		if i > 3 {
			k = nk // is already the key of somebody else
		}
		_, com := zvlib.Key(nil)
		if zvlib.Stops(func() {
			handleClientRegisterServerSide(map[string]interface{}{"public_key": zvlib.Bytes(k), "addr": "127.0.0.1:99", "pcomm": zvlib.Bytes(com)})
		}) {
			fail("the server stops")
			return
		}
		nk = suite.Point().Mul(k, rk)
		e := next.Next()
		if e == nil || e.EventType != proto.CLIENT_REGISTER_SERVERSIDE {
			fail("the registration is not passed on")
			continue
		}
		kb, _ := e.Params["public_key"].([]byte)
		cb, _ := e.Params["pcomm"].([]byte)
		if string(kb) != string(zvlib.Bytes(nk)) || string(cb) != string(zvlib.Bytes(com)) || e.Params["addr"] != "127.0.0.1:99" {
			fail("registration passed on with other content")
		}
		if o := anonServer.KeyMap[nk.String()]; o == nil || !o.Equal(k) || len(anonServer.KeyMap) != i+1 {
			fail("the original key is not remembered")
		}
	}
}
