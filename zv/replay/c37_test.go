package server

import (
	"testing"
	"zRep/primitive/pedersen"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	x, pub := zvlib.Key(nil)
	rx := zvlib.Rnd()
	anonServer = &AnonServer{Suite: suite, PrivateKey: x, PublicKey: pub, LocalAddr: zvlib.Local(), Roundkey: rx, IsConnected: true,
		PedersenBase: pedersen.CreateMinimalBaseFromSuite(suite), FujiOkamBase: zvlib.FO()}
	for round, n := range []int{0, 1, 2, 5, 17, 17, 3, 1, 0, 4} {
		_, g := zvlib.Key(nil)
		_, gt := zvlib.Key(nil)
		_, ht := zvlib.Key(nil)
		ks, vs := []abstract.Point{}, []abstract.Point{}
		for i := 0; i < n; i++ {
			_, k := zvlib.Key(g)
			_, v := zvlib.Key(gt)
			ks, vs = append(ks, k), append(vs, v)
		}
		if round == 5 { // the same participants again with other values, in the other order
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
		id, fo, addr := anonServer.PublicKey, anonServer.FujiOkamBase, anonServer.LocalAddr
		pm := map[string]interface{}{"g": zvlib.Bytes(g), "GT": zvlib.Bytes(gt), "HT": zvlib.Bytes(ht),
			"keys": util.ProtobufEncodePointList(ks), "vals": util.ProtobufEncodePointList(vs)}
		if zvlib.Stops(func() { handleAnnouncementFinalize(pm) }) {
			fail("a well formed table of %d stops the server", n)
			return
		}
		if anonServer.G == nil || !anonServer.G.Equal(g) {
			fail("round %d: another generator", round)
		}
		if !anonServer.PedersenBase.GT.Equal(gt) || !anonServer.PedersenBase.HT.Equal(ht) {
			fail("round %d: other bases", round)
		}
		if len(anonServer.EndingKeyMap) != n || len(anonServer.EndingCommMap) != n {
			fail("round %d: %d and %d entries for %d participants", round, len(anonServer.EndingKeyMap), len(anonServer.EndingCommMap), n)
		}
		for i, k := range ks {
			if o, ok := anonServer.EndingKeyMap[k.String()]; !ok || !o.Equal(k) {
				fail("round %d: participant %d is not in the table", round, i)
			}
			if o, ok := anonServer.EndingCommMap[k.String()]; !ok || !o.Equal(vs[i]) {
				fail("round %d: commitment of participant %d", round, i)
			}
		}
		if !anonServer.PublicKey.Equal(id) || anonServer.FujiOkamBase != fo || anonServer.LocalAddr != addr || !anonServer.Roundkey.Equal(rx) ||
			!anonServer.IsConnected || !anonServer.PrivateKey.Equal(x) {
			fail("round %d: something else of the server changed", round)
		}
	}
}
