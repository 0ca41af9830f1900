package coordinator

import (
	"net"
	"testing"
	"zRep/primitive/pedersen"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	x, pub := zvlib.Key(nil)
	first, last, c1, c2 := zvlib.NewPeer(), zvlib.NewPeer(), zvlib.NewPeer(), zvlib.NewPeer()
	all := []*zvlib.Peer{first, last, c1, c2}
	for _, p := range all {
		defer p.Close()
	}
	same := func(a, b interface{}) bool { return string(a.([]byte)) == string(b.([]byte)) }
	quiet := func(what string, ps ...*zvlib.Peer) {
		for _, p := range ps {
			if e := p.Quiet(); e != nil {
				fail("%s: unexpected message %d", what, e.EventType)
			}
		}
	}
	point := func(b interface{}) abstract.Point { return util.DecodePoint(suite, b.([]byte)) }
	points := func(b interface{}) []abstract.Point { return util.ProtobufDecodePointList(b.([]byte)) }
	base := func() (*pedersen.PedersenBase, abstract.Point, abstract.Point) {
		b := pedersen.CreateMinimalBaseFromSuite(suite)
		_, b.GT = zvlib.Key(nil)
		_, b.HT = zvlib.Key(nil)
		return b, b.GT, b.HT
	}
	fresh := func() {
		anonCoordinator = &Coordinator{Suite: suite, PrivateKey: x, PublicKey: pub, LocalAddr: zvlib.Local(), Status: 77,
			Clients:    map[string]*net.TCPAddr{"a": c1.Addr, "b": c2.Addr},
			ServerList: []ServerInfo{{Addr: first.Addr, PublicKey: pub}, {Addr: last.Addr, PublicKey: pub}}, Bridges: map[string]BridgeInfo{"b": {}},
			BeginningKeyMap: map[string]abstract.Point{}, BeginningCommMap: map[string]abstract.Point{}, EndingKeyMap: map[string]abstract.Point{},
			EndingCommMap: map[string]abstract.Point{}, ReputationDiffMap: map[string]int{}}
		anonCoordinator.PedersenBase, _, _ = base()
	}
	list := func(n int) (ks, vs []abstract.Point) {
		for i := 0; i < n; i++ {
			_, k := zvlib.Key(nil)
			_, v := zvlib.Key(nil)
			ks, vs = append(ks, k), append(vs, v)
		}
		return
	}
	table := func(what string, ks, vs []abstract.Point, km, cm map[string]abstract.Point) {
		if len(km) != len(ks) || len(cm) != len(ks) {
			fail("%s: %d entries for %d participants", what, len(km), len(ks))
		}
		for i, k := range ks {
			if o, ok := km[k.String()]; !ok || !o.Equal(k) {
				fail("%s: participant %d is not in the table", what, i)
			}
			if o, ok := cm[k.String()]; !ok || !o.Equal(vs[i]) {
				fail("%s: commitment of participant %d", what, i)
			}
		}
	}
	// without servers
	fresh()
	anonCoordinator.ServerList = nil
	announce()
	if anonCoordinator.Status != MESSAGE {
		fail("announcing without servers does not open the round")
	}
	roundEnd()
	if anonCoordinator.Status != READY_FOR_NEW_ROUND {
		fail("ending without servers does not end the round")
	}
	for _, n := range []int{0, 1, 2, 5, 9} {
		// the end of a round brings the table of the next one
		fresh()
		ks, vs := list(n)
		_, GT, HT := base()
		_, stale := zvlib.Key(nil)
		anonCoordinator.BeginningKeyMap[stale.String()], anonCoordinator.BeginningCommMap[stale.String()] = stale, stale
		want := map[string]int{}
		for i, d := range []int{3, -2, 0, 1, 40000, -70000, 1 << 33, -5 << 32} {
			_, k := zvlib.Key(nil)
			_ = i
			anonCoordinator.EndingKeyMap[k.String()] = k
			anonCoordinator.ReputationDiffMap[k.String()] = d
			want[k.String()] = d
		}
		if zvlib.Stops(func() {
			handleRoundEnd(map[string]interface{}{"keys": util.ProtobufEncodePointList(ks), "vals": util.ProtobufEncodePointList(vs), "GT": util.EncodePoint(GT), "HT": util.EncodePoint(HT)})
		}) {
			fail("n=%d: the end of the round stops the coordinator", n)
			continue
		}
		table("round end", ks, vs, anonCoordinator.BeginningKeyMap, anonCoordinator.BeginningCommMap)
		if !anonCoordinator.PedersenBase.GT.Equal(GT) || !anonCoordinator.PedersenBase.HT.Equal(HT) {
			fail("generators of the next round")
		}
		if anonCoordinator.Status != READY_FOR_NEW_ROUND {
			fail("status after the round")
		}
		for _, p := range []*zvlib.Peer{c1, c2} {
			e := p.Next()
			if e == nil || e.EventType != proto.ROUND_END {
				fail("a client is not told the end of the round")
				continue
			}
			k, d := points(e.Params["keys"]), util.DecodeIntArray(e.Params["diffs"].([]byte))
			if len(k) != len(want) || len(d) != len(want) {
				fail("number of results")
				continue
			}
			for i := range k {
				if w, ok := want[k[i].String()]; !ok || w != d[i] {
					fail("votes of a participant: %d instead of %d", d[i], w)
				}
			}
		}
		quiet("round end", all...)
		// it goes to the first server
		if zvlib.Stops(announce) {
			fail("n=%d: announcing stops the coordinator", n)
			continue
		}
		e := first.Next()
		if e == nil || e.EventType != proto.ANNOUNCEMENT {
			fail("no announcement")
			continue
		}
		quiet("announcement", all...)
		k, v := points(e.Params["keys"]), points(e.Params["vals"])
		if len(k) != n || len(v) != n {
			fail("size of the announced table")
			continue
		}
		km, cm := map[string]abstract.Point{}, map[string]abstract.Point{}
		for i := range k {
			km[k[i].String()], cm[k[i].String()] = k[i], v[i]
		}
		table("announcement", ks, vs, km, cm)
		if !point(e.Params["GT"]).Equal(GT) || !point(e.Params["HT"]).Equal(HT) {
			fail("announced generators")
		}
		if _, ok := e.Params["g"]; ok {
			fail("announcement with a generator")
		}
		// what comes back is the table of the round
		ks, vs = list(n)
		_, GT, HT = base()
		_, g := zvlib.Key(nil)
		pm := map[string]interface{}{"keys": util.ProtobufEncodePointList(ks), "vals": util.ProtobufEncodePointList(vs), "GT": util.EncodePoint(GT), "HT": util.EncodePoint(HT), "g": util.EncodePoint(g)}
		anonCoordinator.Status = 77
		if zvlib.Stops(func() { handleAnnouncement(pm) }) {
			fail("n=%d: the announcement stops the coordinator", n)
			continue
		}
		table("announced", ks, vs, anonCoordinator.EndingKeyMap, anonCoordinator.EndingCommMap)
		if len(anonCoordinator.ReputationDiffMap) != 0 {
			fail("votes of the last round stay")
		}
		if len(anonCoordinator.AllClientsPublicKeys) != n {
			fail("list of participants")
		} else {
			for i, k := range ks {
				if !k.Equal(anonCoordinator.AllClientsPublicKeys[i]) {
					fail("participant %d", i)
				}
			}
		}
		if !anonCoordinator.PedersenBase.GT.Equal(GT) || !anonCoordinator.PedersenBase.HT.Equal(HT) || !anonCoordinator.G.Equal(g) || anonCoordinator.Status != MESSAGE {
			fail("parameters of the round")
		}
		if anonCoordinator.LRSBase.G.Cmp(util.PointToBigInt(g)) != 0 {
			fail("base of the ring signatures")
		}
		for _, p := range all {
			e := p.Next()
			if e == nil || e.EventType != proto.ANNOUNCEMENT_FINALIZE {
				fail("somebody does not get the table")
				continue
			}
			for k := range pm {
				if !same(e.Params[k], pm[k]) {
					fail("%s changes on the way", k)
				}
			}
		}
		vote()
		for _, p := range []*zvlib.Peer{c1, c2} {
			if e := p.Next(); e == nil || e.EventType != proto.VOTE {
				fail("a client is not asked for its vote")
			}
		}
		quiet("vote", all...)
		// votes and newcomers, then the end
		scores := []int{2, -4, 0, 200, 40000, -1, -70000, 1 << 33, -5 << 32, 1}
		votes := map[string]int{}
		for i := 0; i < n; i += 2 {
			anonCoordinator.ReputationDiffMap[ks[i].String()] = scores[(i/2+n)%len(scores)]
			votes[ks[i].String()] = scores[(i/2+n)%len(scores)]
		}
		nk, nv := list(n % 3)
		for i := range nk {
			anonCoordinator.AddClientInBuffer(nk[i], nv[i])
		}
		if n > 4 { // a pseudonym that registers again
			_, v := zvlib.Key(nil)
			anonCoordinator.AddClientInBuffer(ks[1], v)
			vs[1] = v
		}
		ks, vs = append(ks, nk...), append(vs, nv...)
		if zvlib.Stops(roundEnd) {
			fail("n=%d: ending the round stops the coordinator", n)
			continue
		}
		if len(anonCoordinator.Bridges) != 0 {
			fail("bridges of the last round stay")
		}
		e = last.Next()
		if e == nil || e.EventType != proto.ROUND_END || e.Params["is_start"] != true {
			fail("the last server is not told")
			continue
		}
		if !point(e.Params["GT"]).Equal(GT) || !point(e.Params["HT"]).Equal(HT) {
			fail("generators at the end")
		}
		k, v = points(e.Params["keys"]), points(e.Params["vals"])
		if len(k) != len(ks) || len(v) != len(ks) {
			fail("size of the final table")
			continue
		}
		var rd []abstract.Secret
		for _, p := range []*zvlib.Peer{c1, c2} {
			e2 := p.Next()
			if e2 == nil || e2.EventType != proto.BCAST_PEDERSEN_RDIFF || !same(e2.Params["keys"], e.Params["keys"]) {
				fail("a client does not get the randomness")
				continue
			}
			rd = util.ProtobufDecodeSecretList(e2.Params["rDiffs"].([]byte))
		}
		quiet("end", all...)
		if len(rd) != len(ks) {
			fail("number of random values")
			continue
		}
		km, cm = map[string]abstract.Point{}, map[string]abstract.Point{}
		used := map[string]bool{}
		for i := range k {
			if used[rd[i].String()] {
				fail("randomness used twice")
			}
			used[rd[i].String()] = true
			p := suite.Point().Sub(v[i], suite.Point().Mul(HT, rd[i]))
			p = suite.Point().Sub(p, suite.Point().Mul(GT, zvlib.Sec(votes[k[i].String()])))
			km[k[i].String()], cm[k[i].String()] = k[i], p
		}
		table("final commitments", ks, vs, km, cm)
		// nobody else changed the values on record
		table("record", ks, vs, anonCoordinator.EndingKeyMap, anonCoordinator.EndingCommMap)
	}
}
