package server

import (
	"testing"
	"zRep/cmd/bridge"
	"zRep/primitive/pedersen"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	fb := zvlib.FO()
	pb := pedersen.CreateBaseFromSuite(suite)
	co := zvlib.NewPeer()
	defer co.Close()
	x, pub := zvlib.Key(nil)
	_, nym := zvlib.Key(nil)
	_, prov := zvlib.Key(nil)
	R := zvlib.Rnd()
	used := zvlib.Nonces{}
	for round := 0; round < 3; round++ {
		for n := 1; n < 4; n++ {
			anonServer = &AnonServer{Suite: suite, PrivateKey: x, PublicKey: pub, LocalAddr: zvlib.Local(), PedersenBase: pb, FujiOkamBase: fb,
				EndingKeyMap:  map[string]abstract.Point{nym.String(): nym},
				EndingCommMap: map[string]abstract.Point{nym.String(): pb.CommitWithR(zvlib.Sec(5), R)}}
			pm := zvlib.Proof(pb, fb, 5, R, n)
			pm["nym"] = zvlib.Bytes(nym)
			as := []bridge.Assignment{}
			for i := 0; i < n; i++ {
				as = append(as, bridge.Assignment{NymR: nym, Addr: string(rune('a' + i)), Nym: prov})
			}
			pm["assignments"] = bridge.EncodeAssignmentList(as)
			zvlib.Stops(func() { handleSignAssignments(pm, co.Addr) })
			e := co.Next()
			if e == nil || e.EventType != proto.GOT_SIGNS || e.Params["success"] != true {
				fail("no signatures")
				continue
			}
			b, _ := e.Params["signatures"].([]byte)
			sigs := util.Decode2DByteArray(b)
			if len(sigs) != n {
				fail("%d signatures for %d assignments", len(sigs), n)
				continue
			}
			for i := range as {
				if used.Seen(x, sigs[i]) {
					fail("the one-time secret of a signature is used again")
				}
				if !zvlib.Verifies(pub, bridge.EncodeAssignment(&as[i]), sigs[i], nil) {
					fail("the signature does not verify under the published key")
				}
			}
		}
	}
}
