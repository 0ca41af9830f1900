package server

import (
	"testing"
	"zRep/proto"
	"zRep/zvlib"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	p := zvlib.NewPeer()
	defer p.Close()
	for i := 0; i < 5; i++ {
		x, pub := zvlib.Key(nil)
		rk, _ := zvlib.Key(nil)
		anonServer = &AnonServer{Suite: suite, PrivateKey: x, PublicKey: pub, CoordinatorAddr: p.Addr, LocalAddr: zvlib.Local(), Roundkey: rk}
		if zvlib.Stops(serverRegister) {
			fail("registering stops the server")
			return
		}
		e := p.Next()
		if e == nil || e.EventType != proto.SERVER_REGISTER {
			fail("no registration")
			return
		}
		if b, ok := e.Params["public_key"].([]byte); !ok || string(b) != string(zvlib.Bytes(pub)) {
			fail("another key is registered")
		}
		if len(e.Params) != 1 || p.Quiet() != nil {
			fail("more than the key is sent")
		}
		if anonServer.IsConnected || !anonServer.PublicKey.Equal(pub) || !anonServer.PrivateKey.Equal(x) || !anonServer.Roundkey.Equal(rk) {
			fail("registering changes the server")
		}
	}
}
