package coordinator

import (
	"fmt"
	"net"
	"os"
	"sort"
	"testing"
	"zRep/cmd/bridge"
	"zRep/primitive/pedersen"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

// a message has the effect of the handler of its type, called with its parameters and its sender
func TestZV(t *testing.T) {
	os.Stdout, _ = os.Open(os.DevNull)
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	type pmap = map[string]interface{}
	suite := zvlib.Suite()
	fb := zvlib.FO()
	sec, pub := fb.GenerateAllGnHonestyProof()
	x, cpub := zvlib.Key(nil)
	vx, voter := zvlib.Key(nil)
	sx, spub := zvlib.Key(nil)
	_, prov := zvlib.Key(nil)
	_, key := zvlib.Key(nil)
	_, h := zvlib.Key(nil)
	pb0 := pedersen.CreateBaseFromSuite(suite)
	R := zvlib.Rnd()
	com := pb0.CommitWithR(zvlib.Sec(5), R)
	peer, other := zvlib.NewPeer(), zvlib.NewPeer()
	defer peer.Close()
	defer other.Close()
	status := 0
	fresh := func() *Coordinator {
		pb := *pb0
		pb.GT, pb.HT = suite.Point().Add(pb0.GT, suite.Point().Null()), suite.Point().Add(pb0.HT, suite.Point().Null())
		m := func() map[string]abstract.Point { return map[string]abstract.Point{} }
		c := &Coordinator{Status: status, Suite: suite, PrivateKey: x, PublicKey: cpub, LocalAddr: other.Addr, PedersenBase: &pb, FujiOkamBase: fb, AllGnHonestyProofSecret: sec, AllGnHonestyProofPublic: pub,
			ServerList: []ServerInfo{{Addr: peer.Addr, PublicKey: spub}}, Clients: map[string]*net.TCPAddr{"c": peer.Addr}, BeginningCommMap: m(), BeginningKeyMap: m(),
			EndingCommMap: map[string]abstract.Point{voter.String(): com}, EndingKeyMap: map[string]abstract.Point{voter.String(): voter}, ReputationDiffMap: map[string]int{voter.String(): 1},
			AllClientsPublicKeys: []abstract.Point{voter, prov}, Bridges: map[string]BridgeInfo{"b": {Nym: prov}}, RequesterAddrs: map[string]*net.TCPAddr{voter.String(): peer.Addr},
			AssignmentSignaturesLog: map[string]AssignmentSignatures{"a": {Signatures: make([][]byte, 2), Count: 0}}}
		return c
	}
	print := func(c *Coordinator) string {
		l := []string{}
		add := func(k string, v interface{}) { l = append(l, fmt.Sprintf("%s=%v", k, v)) }
		pts := func(n string, m map[string]abstract.Point) {
			for k, v := range m {
				add(n+k, v)
			}
		}
		pts("begin", c.BeginningCommMap)
		pts("beginkey", c.BeginningKeyMap)
		pts("end", c.EndingCommMap)
		pts("endkey", c.EndingKeyMap)
		for k, v := range c.Clients {
			add("client"+k, v)
		}
		for k, v := range c.RequesterAddrs {
			add("req"+k, v)
		}
		for k, v := range c.ReputationDiffMap {
			add("diff"+k, v)
		}
		for k, v := range c.Bridges {
			add("bridge"+k, v)
		}
		for k, v := range c.AssignmentSignaturesLog {
			add("log"+k, v.Count)
		}
		for i, s := range c.ServerList {
			add("server", fmt.Sprint(i, s.Addr, s.PublicKey))
		}
		for _, b := range c.NewClientsBuffer {
			add("new", fmt.Sprint(b.Nym, b.PComm))
		}
		add("status", c.Status)
		add("G", c.G)
		add("GT", c.PedersenBase.GT)
		add("HT", c.PedersenBase.HT)
		add("all", c.AllClientsPublicKeys)
		for n, p := range []*zvlib.Peer{peer, other} {
			util.SendEvent(zvlib.Local(), p.Addr, &proto.Event{EventType: 99, Params: pmap{}})
			for e := p.Next(); e != nil && e.EventType != 99; e = p.Next() {
				ks := []string{}
				for k := range e.Params {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				add("sent", fmt.Sprint(n, e.EventType, ks, e.Params["success"], e.Params["reply"]))
			}
		}
		sort.Strings(l)
		return fmt.Sprint(l)
	}
	plist := func(p ...abstract.Point) []byte { return util.ProtobufEncodePointList(p) }
	as := bridge.EncodeAssignment(&bridge.Assignment{NymR: voter, Addr: "a", Nym: prov})
	list := bridge.EncodeAssignmentList([]bridge.Assignment{{NymR: voter, Addr: "a", Nym: prov}})
	vote := pmap{"nym": zvlib.Bytes(voter), "assignment": as, "signatures": util.Encode2DByteArray([][]byte{zvlib.Sign(sx, as, nil), zvlib.Sign(x, as, nil)}), "feedback": -1, "signature": []byte{}}
	vote["signature"] = zvlib.Sign(vx, bridge.MessageOfVote(vote), nil)
	request := zvlib.Proof(pb0, fb, 5, R, 1)
	request["nym"] = zvlib.Bytes(voter)
	request["signature"] = []byte{}
	request["signature"] = zvlib.Sign(vx, bridge.MessageOfRequestBridges(request), nil)
	post := pmap{"bridge_addr": "n", "nym": zvlib.Bytes(voter), "signature": []byte{}}
	post["signature"] = zvlib.Sign(vx, bridge.MessageOfPostBridge(post), nil)
	bits := make([]bool, 480)
	table := pmap{"keys": plist(key), "vals": plist(com), "GT": zvlib.Bytes(pb0.GT), "HT": zvlib.Bytes(pb0.HT)}
	announced := pmap{"g": zvlib.Bytes(h), "keys": plist(key), "vals": plist(com), "GT": zvlib.Bytes(pb0.GT), "HT": zvlib.Bytes(pb0.HT)}
	in := []struct {
		kind   int
		handle func(pmap)
		params pmap
	}{
		{proto.SERVER_REGISTER, func(p pmap) { handleServerRegister(p, peer.Addr) }, pmap{"public_key": zvlib.Bytes(key)}},
		{proto.UPDATE_PEDERSEN_H, func(p pmap) { handleUpdatePedersenH(p) }, pmap{"h": zvlib.Bytes(h)}},
		{proto.CLIENT_REGISTER_CONTROLLERSIDE, func(p pmap) { handleClientRegisterControllerSide(p, peer.Addr) }, pmap{"public_key": zvlib.Bytes(key)}},
		{proto.CLIENT_REGISTER_SERVERSIDE, func(p pmap) { handleClientRegisterServerSide(p) }, pmap{"public_key": zvlib.Bytes(key), "addr": peer.Addr.String(), "pcomm": zvlib.Bytes(com)}},
		{proto.GN_HONESTY_CHALLENGE, func(p pmap) { handleGnHonestyChallenge(p, peer.Addr) }, pmap{"honesty_chal": util.ProtobufEncodeBoolList(bits)}},
		{proto.POST_BRIDGE, func(p pmap) { handlePostBridge(p, peer.Addr) }, post},
		{proto.REQUEST_BRIDGES, func(p pmap) { handleRequestBridges(p, peer.Addr) }, request},
		{proto.GOT_SIGNS, func(p pmap) { handleGotSignatures(p, peer.Addr) }, pmap{"success": true, "assignments": list, "signatures": util.Encode2DByteArray([][]byte{zvlib.Sign(sx, as, nil)})}},
		{proto.VOTE, func(p pmap) { handleVote(p, peer.Addr) }, vote},
		{proto.ROUND_END, func(p pmap) { handleRoundEnd(p) }, table},
		{proto.ANNOUNCEMENT, func(p pmap) { handleAnnouncement(p) }, announced},
	}
	inert := []int{proto.ANNOUNCEMENT_FINALIZE, proto.SIGN_ASSIGNMENTS, proto.SERVER_REGISTER_REPLY, proto.UPDATE_NEXT_HOP, proto.CLIENT_REGISTER_CONFIRMATION, proto.VOTE_REPLY,
		proto.BCAST_PEDERSEN_H, proto.GN_HONESTY_ANSWER, proto.BCAST_PEDERSEN_RDIFF, proto.INIT_PEDERSEN_R, 0, -1, 7, 9, 10, 14, 26, 1000}
	send := func(kind int, p pmap, a *net.TCPAddr) []byte {
		return util.Encode(&proto.Event{EventType: kind, Params: p, SrcAddr: a.String()})
	}
	withs := func(i int) []pmap {
		l := []pmap{}
		for j := range in {
			m := pmap{}
			if j == i { // also with parameters nobody asked for
				for k := range in {
					for a, b := range in[k].params {
						m[a] = b
					}
				}
			}
			for a, b := range in[j].params {
				m[a] = b
			}
			l = append(l, m)
		}
		return append(l, in[i%len(in)].params, pmap{})
	}
	copyOf := func(p pmap) pmap {
		m := pmap{}
		for a, b := range p {
			m[a] = b
		}
		return m
	}
	for i, c := range in {
		visible := false
		for n, p := range append(withs(i), c.params, c.params, c.params, c.params) {
			status = n % 4
			n0 := fresh()
			base := print(n0)
			n1 := fresh()
			anonCoordinator = n1
			s1 := zvlib.Stops(func() { c.handle(copyOf(p)) })
			f1 := print(n1)
			anonCoordinator = n0
			n2 := fresh()
			s2 := zvlib.Stops(func() { Handle(send(c.kind, p, peer.Addr), n2) })
			f2 := print(n2)
			if s1 != s2 || f1 != f2 {
				fail("a message of type %d with parameters %d is not handled by its handler: stops %v/%v\n%.300s\n%.300s", c.kind, len(p), s1, s2, f1, f2)
			}
			if print(n0) != base {
				fail("a message of type %d changes another node", c.kind)
			}
			visible = visible || f1 != base
		}
		if !visible {
			t.Logf("type %d has no visible effect", c.kind)
		}
	}
	for k := -2; k < 300; k++ {
		known := false
		for _, c := range in {
			known = known || c.kind == k
		}
		if !known {
			inert = append(inert, k)
		}
	}
	for _, k := range inert {
		for _, p := range withs(0) {
			n := fresh()
			base := print(n)
			zvlib.Stops(func() { Handle(send(k, p, peer.Addr), n) })
			if print(n) != base {
				fail("a message of type %d has an effect", k)
			}
		}
	}
	for _, b := range [][]byte{nil, {}, {1, 2, 3}, send(proto.UPDATE_PEDERSEN_H, pmap{"h": zvlib.Bytes(h)}, peer.Addr)[3:]} {
		n := fresh()
		base := print(n)
		zvlib.Stops(func() { Handle(b, n) })
		if print(n) != base {
			fail("bytes that are no message have an effect")
		}
	}
}
