package coordinator

import (
	"net"
	"testing"
	"zRep/primitive/pedersen"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	fb := zvlib.FO()
	x, pub := zvlib.Key(nil)
	_, h := zvlib.Key(nil)
	fresh := func() {
		anonCoordinator = &Coordinator{Suite: suite, PrivateKey: x, PublicKey: pub, LocalAddr: zvlib.Local(), PedersenBase: pedersen.CreateMinimalBaseFromSuite(suite),
			FujiOkamBase: fb, Clients: map[string]*net.TCPAddr{}}
		anonCoordinator.PedersenBase.HT = h
		_, anonCoordinator.AllGnHonestyProofPublic = fb.GenerateAllGnHonestyProof()
	}
	same := func(b interface{}, want []byte) bool { g, ok := b.([]byte); return ok && string(g) == string(want) }
	params := func(e *proto.Event) {
		for k, p := range map[string][]byte{"n": fb.N.Bytes(), "g1": fb.G1.ToBinary(), "g2": fb.G2.ToBinary(), "g3": fb.G3.ToBinary(), "g4": fb.G4.ToBinary(),
			"g5": fb.G5.ToBinary(), "g6": fb.G6.ToBinary(), "h1": fb.H1.ToBinary()} {
			if !same(e.Params[k], p) {
				fail("parameter %s is not passed on unchanged", k)
			}
		}
	}
	fresh()
	peers := []*zvlib.Peer{}
	keys := []abstract.Point{}
	for i := 0; i < 4; i++ {
		p := zvlib.NewPeer()
		defer p.Close()
		_, k := zvlib.Key(nil)
		if zvlib.Stops(func() { handleServerRegister(map[string]interface{}{"public_key": zvlib.Bytes(k)}, p.Addr) }) {
			fail("registering server %d stops the coordinator", i)
			return
		}
		prev := anonCoordinator.LocalAddr.String()
		if i > 0 {
			prev = peers[i-1].Addr.String()
			e := peers[i-1].Next()
			if e == nil || e.EventType != proto.UPDATE_NEXT_HOP || e.Params["next_hop"] != p.Addr.String() {
				fail("server %d is not told its successor", i-1)
			}
		}
		e := p.Next()
		if e == nil || e.EventType != proto.SERVER_REGISTER_REPLY {
			fail("server %d gets no reply", i)
		} else {
			if e.Params["prev_server"] != prev || e.Params["reply"] != true {
				fail("server %d gets predecessor %v", i, e.Params["prev_server"])
			}
			if !same(e.Params["h"], zvlib.Bytes(h)) {
				fail("wrong h")
			}
			params(e)
		}
		peers = append(peers, p)
		keys = append(keys, k)
		if len(anonCoordinator.ServerList) != i+1 {
			fail("%d servers recorded after %d registrations", len(anonCoordinator.ServerList), i+1)
			return
		}
		for j, s := range anonCoordinator.ServerList {
			if s.Addr.String() != peers[j].Addr.String() || !s.PublicKey.Equal(keys[j]) {
				fail("server %d is not at its place in the chain", j)
			}
		}
	}
	// clients
	_, g := zvlib.Key(nil)
	anonCoordinator.G = g
	cls := []*zvlib.Peer{zvlib.NewPeer(), zvlib.NewPeer(), zvlib.NewPeer()}
	for _, c := range cls {
		defer c.Close()
	}
	for n, who := range []int{0, 1, 2, 1, 0, 1, 2} {
		if n == 6 {
			for i := 0; i < 150; i++ {
				anonCoordinator.Clients[string(rune(200+i))] = &net.TCPAddr{IP: net.IPv4(127, 0, 9, 9), Port: 10 + i}
			}
		}
		_, k := zvlib.Key(nil)
		c := cls[who]
		if zvlib.Stops(func() { handleClientRegisterControllerSide(map[string]interface{}{"public_key": zvlib.Bytes(k)}, c.Addr) }) {
			fail("registering a client stops the coordinator")
			return
		}
		count := 0
		for kk, a := range anonCoordinator.Clients {
			if a.String() == c.Addr.String() {
				count++
				if kk != k.String() {
					fail("the address stays recorded under an older key")
				}
			}
		}
		if count != 1 {
			fail("an address is recorded %d times", count)
		}
		want := 3
		if n < 3 {
			want = n + 1
		} else if n == 6 {
			want = 153
		}
		if len(anonCoordinator.Clients) != want {
			fail("%d clients recorded instead of %d", len(anonCoordinator.Clients), want)
		}
		e, r := peers[0].Next(), c.Next()
		if e == nil || e.EventType != proto.CLIENT_REGISTER_SERVERSIDE || r == nil || r.EventType != proto.INIT_PEDERSEN_R {
			fail("registration messages are missing")
			continue
		}
		if !same(e.Params["public_key"], zvlib.Bytes(k)) || e.Params["addr"] != c.Addr.String() {
			fail("the chain gets another key or address")
		}
		pc, ok := e.Params["pcomm"].([]byte)
		rb, ok2 := r.Params["r"].([]byte)
		if !ok || !ok2 || !util.DecodePoint(suite, pc).Equal(anonCoordinator.PedersenBase.CommitWithR(zvlib.Sec(5), util.DecodeSecret(suite, rb))) {
			fail("commitment and randomness do not open to the starting credit")
		}
		if !same(r.Params["g"], zvlib.Bytes(g)) {
			fail("wrong generator")
		}
		for i := 1; i < 4; i++ {
			if peers[i].Quiet() != nil {
				fail("server %d gets a message", i)
			}
		}
	}
	// back from the chain
	for i := 0; i < 3; i++ {
		_, nym := zvlib.Key(nil)
		_, com := zvlib.Key(nil)
		if zvlib.Stops(func() {
			handleClientRegisterServerSide(map[string]interface{}{"public_key": zvlib.Bytes(nym), "addr": cls[i].Addr.String(), "pcomm": zvlib.Bytes(com)})
		}) {
			fail("the coordinator stops")
			return
		}
		b := anonCoordinator.NewClientsBuffer
		if len(b) != i+1 || !b[i].Nym.Equal(nym) || !b[i].PComm.Equal(com) {
			fail("the client is not queued with its commitment")
		}
		e := cls[i].Next()
		if e == nil || e.EventType != proto.CLIENT_REGISTER_CONFIRMATION {
			fail("no confirmation")
			continue
		}
		params(e)
		if !same(e.Params["public_key"], zvlib.Bytes(pub)) {
			fail("wrong key of the coordinator")
		}
	}
}
