package server

import (
	"testing"
	"zRep/cmd/bridge"
	"zRep/primitive/pedersen"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	fb := zvlib.FO()
	pb := pedersen.CreateBaseFromSuite(suite)
	co := zvlib.NewPeer()
	defer co.Close()
	x, pub := zvlib.Key(nil)
	_, nym := zvlib.Key(nil)
	_, nym2 := zvlib.Key(nil)
	_, prov := zvlib.Key(nil)
	R := zvlib.Rnd()
	run := func(pm map[string]interface{}) *proto.Event {
		anonServer = &AnonServer{Suite: suite, PrivateKey: x, PublicKey: pub, LocalAddr: zvlib.Local(), PedersenBase: pb, FujiOkamBase: fb,
			EndingKeyMap:  map[string]abstract.Point{nym.String(): nym, nym2.String(): nym2},
			EndingCommMap: map[string]abstract.Point{nym.String(): pb.CommitWithR(zvlib.Sec(5), R), nym2.String(): pb.CommitWithR(zvlib.Sec(6), R)}}
		zvlib.Stops(func() { handleSignAssignments(pm, co.Addr) })
		return co.Quiet()
	}
	list := func(n int, who abstract.Point) []bridge.Assignment {
		l := []bridge.Assignment{}
		for i := 0; i < n; i++ {
			l = append(l, bridge.Assignment{NymR: who, Addr: string(rune('a' + i)), Nym: prov})
		}
		return l
	}
	_, prov2 := zvlib.Key(nil)
	mixed := func(kind int) []bridge.Assignment {
		l := list(3, nym)
		switch kind {
		case 0: // one bridge twice
			l[1] = l[0]
		case 1: // same address, other provider
			l[2].Addr, l[2].Nym = l[1].Addr, prov2
		case 2: // all the same
			l[1], l[2] = l[0], l[0]
		case 3: // other requester
			l[1].NymR = nym2
		case 4: // own bridge
			l[0].Nym = nym
		case 5: // no address
			l[2].Addr = ""
		case 6:
			l = list(20, nym)
		}
		return l
	}
	mk := func(ind, n int) map[string]interface{} {
		p := zvlib.Proof(pb, fb, 5, R, ind)
		p["nym"] = zvlib.Bytes(nym)
		p["assignments"] = bridge.EncodeAssignmentList(list(n, nym))
		return p
	}
	for _, c := range [][2]int{{1, 1}, {3, 3}, {5, 2}, {2, 0}, {2, -1}, {3, -2}, {1, -3}, {3, -4}, {3, -5}, {3, -6}, {3, -7}, {0, 1}, {-1, 1}} {
		as := list(c[1], nym)
		if c[1] < 0 {
			as = mixed(-c[1] - 1)
		}
		pm := mk(c[0], 0)
		pm["assignments"] = bridge.EncodeAssignmentList(as)
		e := run(pm)
		if e == nil || e.EventType != proto.GOT_SIGNS || e.Params["success"] != true {
			fail("no signatures for a valid request (%v)", c)
			continue
		}
		got, _ := e.Params["assignments"].([]byte)
		if string(got) != string(pm["assignments"].([]byte)) {
			fail("the reply names other assignments")
		}
		b, _ := e.Params["signatures"].([]byte)
		sigs := util.Decode2DByteArray(b)
		if len(sigs) != len(as) {
			fail("%d signatures for %d assignments", len(sigs), len(as))
			continue
		}
		seen := map[string]bool{}
		for i := range as {
			if !zvlib.Verifies(pub, bridge.EncodeAssignment(&as[i]), sigs[i], nil) {
				fail("signature %d of %d does not verify over its assignment", i, len(as))
			}
			if seen[string(sigs[i][:64])] {
				fail("repeated commitment")
			}
			seen[string(sigs[i][:64])] = true
		}
	}
	refused := func(what string, pm map[string]interface{}) {
		e := run(pm)
		if e == nil {
			return
		}
		if e.Params["success"] != false || e.Params["signatures"] != nil {
			fail("signatures although %s", what)
		}
	}
	good, other := mk(3, 2), mk(3, 2)
	with := func(kv ...interface{}) map[string]interface{} {
		m := map[string]interface{}{}
		for k, v := range good {
			m[k] = v
		}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
		return m
	}
	_, stranger := zvlib.Key(nil)
	refused("the proof is for another indicator", with("ind", 4))
	refused("the commitment belongs to somebody else", with("nym", zvlib.Bytes(nym2)))
	refused("the requester is unknown", with("nym", zvlib.Bytes(stranger)))
	refused("the opening is wrong", with("rind", other["rind"]))
	refused("the difference is wrong", with("PCommd", other["PCommd"], "FOCommd", other["FOCommd"], "arg_nonneg", other["arg_nonneg"], "arg_equal", other["arg_equal"]))
	refused("the non-negativity argument is for another commitment", with("arg_nonneg", other["arg_nonneg"]))
	refused("the equality argument is for another commitment", with("arg_equal", other["arg_equal"]))
	refused("the integer commitment is another one", with("FOCommd", other["FOCommd"], "arg_nonneg", other["arg_nonneg"]))
	refused("the indicator exceeds the reputation", mk(9, 2))
}
