package client

import (
	"testing"
	"zRep/proto"
	"zRep/zvlib"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	p := zvlib.NewPeer()
	defer p.Close()
	for i := 0; i < 5; i++ {
		x, pub := zvlib.Key(nil)
		dissentClient = &DissentClient{Suite: suite, PrivateKey: x, PublicKey: pub, CoordinatorAddr: p.Addr, LocalAddr: zvlib.Local(),
			OnetimePseudoNym: suite.Point(), ControllerPublicKey: suite.Point()}
		if zvlib.Stops(register) {
			fail("registering stops the client")
			return
		}
		e := p.Next()
		if e == nil || e.EventType != proto.CLIENT_REGISTER_CONTROLLERSIDE {
			fail("no registration")
			return
		}
		if b, ok := e.Params["public_key"].([]byte); !ok || string(b) != string(zvlib.Bytes(pub)) {
			fail("another key is registered")
		}
		if len(e.Params) != 1 || p.Quiet() != nil {
			fail("more than the key is sent")
		}
		if dissentClient.Status != 0 || !dissentClient.PublicKey.Equal(pub) || !dissentClient.PrivateKey.Equal(x) {
			fail("registering changes the client")
		}
	}
}
