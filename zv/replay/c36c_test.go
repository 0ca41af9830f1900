package client

import (
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"sort"
	"testing"
	"zRep/cmd/bridge"
	"zRep/primitive/pedersen"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

// a message has the effect of the handler of its type, called with its parameters on the client it is for
func TestZV(t *testing.T) {
	dir, err := ioutil.TempDir("", "zv")
	if err != nil {
		t.Skip()
	}
	defer os.RemoveAll(dir)
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	type pmap = map[string]interface{}
	suite := zvlib.Suite()
	fb := zvlib.FO()
	x, pub := zvlib.Key(nil)
	_, nym := zvlib.Key(nil)
	_, prov := zvlib.Key(nil)
	_, h := zvlib.Key(nil)
	cx, cpub := zvlib.Key(nil)
	pb0 := pedersen.CreateBaseFromSuite(suite)
	R := zvlib.Rnd()
	com := pb0.CommitWithR(zvlib.Sec(5), R)
	sec, hon := fb.GenerateAllGnHonestyProof()
	bits := make([]bool, 480)
	co := zvlib.NewPeer()
	defer co.Close()
	same := func(p abstract.Point) abstract.Point { return suite.Point().Add(p, suite.Point().Null()) }
	status, rep := MESSAGE, 5
	fresh := func() *DissentClient {
		pb := *pb0
		pb.GT, pb.HT = same(pb0.GT), same(pb0.HT)
		return &DissentClient{Suite: suite, PrivateKey: x, PublicKey: pub, OnetimePseudoNym: same(nym), LocalAddr: zvlib.Local(), CoordinatorAddr: co.Addr, ControllerPublicKey: same(cpub),
			PedersenBase: &pb, FujiOkamBase: fb, Reputation: rep, R: suite.Secret().Add(R, suite.Secret().Zero()), PCommr: same(com), Status: status, AllGnHonestyProofPublic: hon, AllGnHonestyChallenge: bits,
			Assignments: []AssignmentInfo{{Assignment: &bridge.Assignment{Addr: "old", Nym: nym, NymR: nym}, ByteSignatures: []byte("x")}}}
	}
	print := func(c *DissentClient) string {
		l := []string{}
		add := func(k string, v interface{}) { l = append(l, fmt.Sprintf("%s=%v", k, v)) }
		add("state", fmt.Sprint(c.Status, c.Reputation, c.R, c.PCommr, c.OnetimePseudoNym, c.G, c.ControllerPublicKey, c.PedersenBase.GT, c.PedersenBase.HT, c.FujiOkamBase == fb, len(c.AllGnHonestyProofPublic)))
		for _, a := range c.Assignments {
			add("assignment", fmt.Sprint(a.Assignment.Addr, a.Assignment.Nym, string(a.ByteSignatures)))
		}
		util.SendEvent(zvlib.Local(), co.Addr, &proto.Event{EventType: 99, Params: pmap{}})
		for e := co.Next(); e != nil && e.EventType != 99; e = co.Next() {
			ks := []string{}
			for k := range e.Params {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			add("sent", fmt.Sprint(e.EventType, ks))
		}
		sort.Strings(l)
		return fmt.Sprint(l)
	}
	plist := func(p ...abstract.Point) []byte { return util.ProtobufEncodePointList(p) }
	signs := pmap{"assignment": bridge.EncodeAssignment(&bridge.Assignment{NymR: nym, Addr: "a", Nym: prov}), "signatures": []byte("list"), "signature": []byte{}}
	signs["signature"] = zvlib.Sign(cx, bridge.MessageOfGotSignatures(signs), nil)
	ans := make([]*big.Int, 480)
	for i := range ans {
		ans[i] = sec[i]
	}
	mine := suite.Point().Mul(h, x)
	in := []struct {
		kind   int
		handle func(pmap, *DissentClient)
		params pmap
	}{
		{proto.CLIENT_REGISTER_CONFIRMATION, func(p pmap, c *DissentClient) { handleRegisterConfirmation(p, c) }, pmap{"honesty_prf": util.ProtobufEncodeBigIntList(hon), "public_key": zvlib.Bytes(pub), "n": fb.N.Bytes(),
			"g1": fb.G1.ToBinary(), "g2": fb.G2.ToBinary(), "g3": fb.G3.ToBinary(), "g4": fb.G4.ToBinary(), "g5": fb.G5.ToBinary(), "g6": fb.G6.ToBinary(), "h1": fb.H1.ToBinary()}},
		{proto.INIT_PEDERSEN_R, func(p pmap, c *DissentClient) { handleInitPedersenR(p, c) }, pmap{"r": zvlib.SBytes(zvlib.Rnd()), "g": zvlib.Bytes(h)}},
		{proto.GN_HONESTY_ANSWER, func(p pmap, c *DissentClient) { handleGnHonestyAnswer(p, c) }, pmap{"honesty_ans": util.ProtobufEncodeBigIntList(ans)}},
		{proto.ANNOUNCEMENT_FINALIZE, func(p pmap, c *DissentClient) { handleAnnouncementFinalize(p, c) }, pmap{"g": zvlib.Bytes(h), "keys": plist(prov, mine), "vals": plist(com, h),
			"GT": zvlib.Bytes(h), "HT": zvlib.Bytes(prov)}},
		{proto.GOT_SIGNS, func(p pmap, c *DissentClient) { handleGotSignatures(p, c) }, signs},
		{proto.VOTE, func(p pmap, c *DissentClient) { handleVotePhaseStart(c) }, pmap{}},
		{proto.ROUND_END, func(p pmap, c *DissentClient) { handleRoundEnd(p, c) }, pmap{"keys": plist(prov, nym), "diffs": util.EncodeIntArray([]int{3, -2})}},
		{proto.BCAST_PEDERSEN_RDIFF, func(p pmap, c *DissentClient) { handleBroadcastPedersenRDiff(p, c) }, pmap{"keys": plist(prov, nym), "rDiffs": util.ProtobufEncodeSecretList([]abstract.Secret{zvlib.Sec(3), zvlib.Sec(9)})}},
		{proto.VOTE_REPLY, func(p pmap, c *DissentClient) { handleVoteReply(p) }, pmap{"reply": true}},
	}
	inert := []int{proto.SERVER_REGISTER, proto.CLIENT_REGISTER_CONTROLLERSIDE, proto.CLIENT_REGISTER_SERVERSIDE, proto.GN_HONESTY_CHALLENGE, proto.SIGN_ASSIGNMENTS, proto.ANNOUNCEMENT,
		proto.UPDATE_PEDERSEN_H, proto.BCAST_PEDERSEN_H, proto.POST_BRIDGE, proto.REQUEST_BRIDGES, 0, -1, 7, 9, 10, 14, 26, 1000}
	send := func(kind int, p pmap) []byte {
		return util.Encode(&proto.Event{EventType: kind, Params: p, SrcAddr: co.Addr.String()})
	}
	withs := func(i int) []pmap {
		l := []pmap{}
		for j := range in {
			m := pmap{}
			if j == i { // also with parameters nobody asked for
				for k := range in {
					for a, b := range in[k].params {
						m[a] = b
					}
				}
			}
			for a, b := range in[j].params {
				m[a] = b
			}
			l = append(l, m)
		}
		return append(l, in[i%len(in)].params, pmap{})
	}
	copyOf := func(p pmap) pmap {
		m := pmap{}
		for a, b := range p {
			m[a] = b
		}
		return m
	}
	// what the node tells its user counts too
	n := 0
	output := func(f func()) string {
		n++
		name := fmt.Sprintf("%s/%d", dir, n)
		w, err := os.Create(name)
		if err != nil {
			return ""
		}
		old := os.Stdout
		os.Stdout = w
		f()
		os.Stdout = old
		w.Close()
		b, _ := ioutil.ReadFile(name)
		return string(b)
	}
	for i, c := range in {
		for n, p := range append(withs(i), c.params, c.params, c.params, c.params, c.params, c.params) {
			status, rep = []int{CONFIGURATION, CONNECTED, MESSAGE, VOTE}[n%4], []int{5, 0, -3}[n%3]
			d := fresh()
			dissentClient = d
			base := print(d)
			n1, n2 := fresh(), fresh()
			var s1, s2 bool
			o1 := output(func() { s1 = zvlib.Stops(func() { c.handle(copyOf(p), n1) }) })
			f1 := print(n1)
			o2 := output(func() { s2 = zvlib.Stops(func() { Handle(send(c.kind, p), n2) }) })
			f2 := print(n2)
			if s1 != s2 || f1 != f2 {
				fail("a message of type %d with %d parameters is not handled by its handler: stops %v/%v\n%.300s\n%.300s", c.kind, len(p), s1, s2, f1, f2)
			}
			if (len(o1) == 0) != (len(o2) == 0) && f1 == base {
				fail("a message of type %d is not reported as by its handler: %q / %q", c.kind, o1, o2)
			}
			if print(d) != base {
				fail("a message of type %d changes another client", c.kind)
			}
		}
	}
	for k := -2; k < 300; k++ {
		known := false
		for _, c := range in {
			known = known || c.kind == k
		}
		if !known {
			inert = append(inert, k)
		}
	}
	for _, k := range inert {
		for _, p := range withs(0) {
			n := fresh()
			base := print(n)
			output(func() { zvlib.Stops(func() { Handle(send(k, p), n) }) })
			if print(n) != base {
				fail("a message of type %d has an effect", k)
			}
		}
	}
	for _, b := range [][]byte{nil, {}, {1, 2, 3}, send(proto.INIT_PEDERSEN_R, in[1].params)[3:]} {
		n := fresh()
		base := print(n)
		output(func() { zvlib.Stops(func() { Handle(b, n) }) })
		if print(n) != base {
			fail("bytes that are no message have an effect")
		}
	}
}
