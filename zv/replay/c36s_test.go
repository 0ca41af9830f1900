package server

import (
	"fmt"
	"os"
	"sort"
	"testing"
	"zRep/cmd/bridge"
	"zRep/primitive/pedersen"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

// a message has the effect of the handler of its type, called with its parameters and its sender
func TestZV(t *testing.T) {
	os.Stdout, _ = os.Open(os.DevNull)
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	type pmap = map[string]interface{}
	suite := zvlib.Suite()
	fb := zvlib.FO()
	x, pub := zvlib.Key(nil)
	_, nym := zvlib.Key(nil)
	_, prov := zvlib.Key(nil)
	_, h := zvlib.Key(nil)
	rk := zvlib.Rnd()
	blind := suite.Point().Mul(nym, rk)
	pb0 := pedersen.CreateBaseFromSuite(suite)
	R := zvlib.Rnd()
	com := pb0.CommitWithR(zvlib.Sec(5), R)
	peer, next, prev := zvlib.NewPeer(), zvlib.NewPeer(), zvlib.NewPeer()
	defer peer.Close()
	defer next.Close()
	defer prev.Close()
	fresh := func() *AnonServer {
		pb := *pb0
		pb.GT, pb.HT = suite.Point().Add(pb0.GT, suite.Point().Null()), suite.Point().Add(pb0.HT, suite.Point().Null())
		return &AnonServer{Suite: suite, PrivateKey: x, PublicKey: pub, LocalAddr: zvlib.Local(), PedersenBase: &pb, FujiOkamBase: fb, Roundkey: rk, NextHop: next.Addr, PreviousHop: prev.Addr,
			KeyMap:        map[string]abstract.Point{blind.String(): nym},
			EndingCommMap: map[string]abstract.Point{nym.String(): com}, EndingKeyMap: map[string]abstract.Point{nym.String(): nym}}
	}
	print := func(c *AnonServer) string {
		l := []string{}
		add := func(k string, v interface{}) { l = append(l, fmt.Sprintf("%s=%v", k, v)) }
		for n, m := range []map[string]abstract.Point{c.KeyMap, c.EndingCommMap, c.EndingKeyMap} {
			for k, v := range m {
				add(fmt.Sprint("map", n, k), v)
			}
		}
		add("hops", fmt.Sprint(c.NextHop, c.PreviousHop, c.IsConnected))
		add("rk", c.Roundkey != nil && c.Roundkey.Equal(rk))
		add("G", c.G)
		add("GT", c.PedersenBase.GT)
		add("HT", c.PedersenBase.HT)
		add("FO", c.FujiOkamBase == fb)
		for n, p := range []*zvlib.Peer{peer, next, prev} {
			util.SendEvent(zvlib.Local(), p.Addr, &proto.Event{EventType: 99, Params: pmap{}})
			for e := p.Next(); e != nil && e.EventType != 99; e = p.Next() {
				ks := []string{}
				for k := range e.Params {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				add("sent", fmt.Sprint(n, e.EventType, ks, e.Params["success"]))
			}
		}
		sort.Strings(l)
		return fmt.Sprint(l)
	}
	plist := func(p ...abstract.Point) []byte { return util.ProtobufEncodePointList(p) }
	request := zvlib.Proof(pb0, fb, 5, R, 1)
	request["nym"] = zvlib.Bytes(nym)
	request["assignments"] = bridge.EncodeAssignmentList([]bridge.Assignment{{NymR: nym, Addr: "a", Nym: prov}})
	gtht := func(p pmap) pmap { p["GT"], p["HT"] = zvlib.Bytes(pb0.GT), zvlib.Bytes(pb0.HT); return p }
	in := []struct {
		kind   int
		handle func(pmap)
		params pmap
	}{
		{proto.SERVER_REGISTER_REPLY, func(p pmap) { handleServerRegisterReply(p, peer.Addr) }, pmap{"reply": true, "prev_server": "127.0.0.1:4711", "h": zvlib.Bytes(h), "n": fb.N.Bytes(), "g1": fb.G1.ToBinary(),
			"g2": fb.G2.ToBinary(), "g3": fb.G3.ToBinary(), "g4": fb.G4.ToBinary(), "g5": fb.G5.ToBinary(), "g6": fb.G6.ToBinary(), "h1": fb.H1.ToBinary()}},
		{proto.ANNOUNCEMENT, func(p pmap) { handleAnnouncement(p) }, gtht(pmap{"keys": plist(prov), "vals": plist(com)})},
		{proto.ANNOUNCEMENT_FINALIZE, func(p pmap) { handleAnnouncementFinalize(p) }, gtht(pmap{"g": zvlib.Bytes(h), "keys": plist(prov, nym), "vals": plist(com, h)})},
		{proto.SIGN_ASSIGNMENTS, func(p pmap) { handleSignAssignments(p, peer.Addr) }, request},
		{proto.UPDATE_NEXT_HOP, func(p pmap) { handleUpdateNextHop(p) }, pmap{"next_hop": "127.0.0.1:4712"}},
		{proto.CLIENT_REGISTER_SERVERSIDE, func(p pmap) { handleClientRegisterServerSide(p) }, pmap{"public_key": zvlib.Bytes(prov), "addr": "127.0.0.1:1", "pcomm": zvlib.Bytes(com)}},
		{proto.ROUND_END, func(p pmap) { handleRoundEnd(p) }, gtht(pmap{"keys": plist(blind), "vals": plist(com), "is_start": true})},
		{proto.BCAST_PEDERSEN_H, func(p pmap) { handleBroadcastPedersenH(p) }, pmap{"h": zvlib.Bytes(h)}},
	}
	inert := []int{proto.SERVER_REGISTER, proto.CLIENT_REGISTER_CONTROLLERSIDE, proto.CLIENT_REGISTER_CONFIRMATION, proto.VOTE, proto.VOTE_REPLY, proto.GN_HONESTY_CHALLENGE, proto.GN_HONESTY_ANSWER,
		proto.UPDATE_PEDERSEN_H, proto.BCAST_PEDERSEN_RDIFF, proto.INIT_PEDERSEN_R, proto.POST_BRIDGE, proto.REQUEST_BRIDGES, proto.GOT_SIGNS, 0, -1, 7, 9, 10, 14, 26, 1000}
	send := func(kind int, p pmap) []byte {
		return util.Encode(&proto.Event{EventType: kind, Params: p, SrcAddr: peer.Addr.String()})
	}
	withs := func(i int) []pmap {
		l := []pmap{}
		for j := range in {
			m := pmap{}
			if j == i { // also with parameters nobody asked for
				for k := range in {
					for a, b := range in[k].params {
						if a != "g" && a != "shuffled" {
							m[a] = b
						}
					}
				}
			}
			for a, b := range in[j].params {
				m[a] = b
			}
			l = append(l, m)
		}
		return append(l, in[i%len(in)].params, pmap{})
	}
	copyOf := func(p pmap) pmap {
		m := pmap{}
		for a, b := range p {
			m[a] = b
		}
		return m
	}
	// GT and HT are re-randomised on the way: only the kind of message is compared
	for i, c := range in {
		visible := false
		for _, p := range withs(i) {
			n0 := fresh()
			base := print(n0)
			n1 := fresh()
			anonServer = n1
			s1 := zvlib.Stops(func() { c.handle(copyOf(p)) })
			f1 := print(n1)
			anonServer = n0
			n2 := fresh()
			s2 := zvlib.Stops(func() { Handle(send(c.kind, p), n2) })
			f2 := print(n2)
			if s1 != s2 || f1 != f2 {
				fail("a message of type %d with %d parameters is not handled by its handler: stops %v/%v\n%.300s\n%.300s", c.kind, len(p), s1, s2, f1, f2)
			}
			if print(n0) != base {
				fail("a message of type %d changes another node", c.kind)
			}
			visible = visible || f1 != base
		}
		if !visible {
			t.Logf("type %d has no visible effect", c.kind)
		}
	}
	for k := -2; k < 300; k++ {
		known := false
		for _, c := range in {
			known = known || c.kind == k
		}
		if !known {
			inert = append(inert, k)
		}
	}
	for _, k := range inert {
		for _, p := range withs(0) {
			n := fresh()
			base := print(n)
			zvlib.Stops(func() { Handle(send(k, p), n) })
			if print(n) != base {
				fail("a message of type %d has an effect", k)
			}
		}
	}
	for _, b := range [][]byte{nil, {}, {1, 2, 3}, send(proto.BCAST_PEDERSEN_H, pmap{"h": zvlib.Bytes(h)})[3:]} {
		n := fresh()
		base := print(n)
		zvlib.Stops(func() { Handle(b, n) })
		if print(n) != base {
			fail("bytes that are no message have an effect")
		}
	}
}
