package client

import (
	"testing"
	"zRep/cmd/bridge"
	"zRep/zvlib"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	cx, cpub := zvlib.Key(nil)
	ox, _ := zvlib.Key(nil)
	_, nym := zvlib.Key(nil)
	_, prov := zvlib.Key(nil)
	a := &bridge.Assignment{Addr: "10.0.0.1:443", Nym: prov, NymR: nym}
	ab := bridge.EncodeAssignment(a)
	sigs := []byte("the signature list \x00\x01")
	mk := func(x int, ab, sigs []byte) map[string]interface{} {
		pm := map[string]interface{}{"assignment": ab, "signatures": sigs, "signature": []byte{}}
		k := cx
		if x == 1 {
			k = ox
		}
		pm["signature"] = zvlib.Sign(k, bridge.MessageOfGotSignatures(pm), nil)
		return pm
	}
	other := AssignmentInfo{Assignment: &bridge.Assignment{Addr: "old", Nym: nym, NymR: nym}, ByteSignatures: []byte("x")}
	run := func(pm map[string]interface{}, good bool, what string) {
		for n := 0; n < 3; n++ {
			c := &DissentClient{Suite: suite, ControllerPublicKey: cpub}
			for i := 0; i < n; i++ {
				c.Assignments = append(c.Assignments, other)
			}
			zvlib.Stops(func() { handleGotSignatures(pm, c) })
			if !good {
				if len(c.Assignments) != n {
					fail("recorded: %s", what)
				}
				continue
			}
			if len(c.Assignments) != n+1 {
				fail("not recorded: %s", what)
				continue
			}
			for i := 0; i < n; i++ {
				if c.Assignments[i].Assignment != other.Assignment {
					fail("an earlier assignment is lost")
				}
			}
			g := c.Assignments[n]
			if g.Assignment == nil || g.Assignment.Addr != a.Addr || !g.Assignment.Nym.Equal(prov) || !g.Assignment.NymR.Equal(nym) || string(g.ByteSignatures) != string(pm["signatures"].([]byte)) {
				fail("another assignment or signature list is recorded")
			}
		}
	}
	run(mk(0, ab, sigs), true, "genuine delivery")
	// the same bridge again, for another requester or from another provider, whatever the client is doing
	for st := CONFIGURATION; st <= VOTE; st++ {
		for i, o := range []*bridge.Assignment{a, {Addr: a.Addr, Nym: nym, NymR: prov}, {Addr: a.Addr, Nym: prov, NymR: prov}, {Addr: "other", Nym: prov, NymR: nym}} {
			c := &DissentClient{Suite: suite, ControllerPublicKey: cpub, OnetimePseudoNym: nym, PublicKey: nym, Status: st}
			for k, x := range []*bridge.Assignment{o, a, a} {
				sg := []byte{byte(k), byte(i)}
				pm := mk(0, bridge.EncodeAssignment(x), sg)
				zvlib.Stops(func() { handleGotSignatures(pm, c) })
				if len(c.Assignments) != k+1 || c.Assignments[k].Assignment.Addr != x.Addr || !c.Assignments[k].Assignment.Nym.Equal(x.Nym) || !c.Assignments[k].Assignment.NymR.Equal(x.NymR) || string(c.Assignments[k].ByteSignatures) != string(sg) {
					fail("delivery %d of bridge %s (status %d): not recorded", k, x.Addr, st)
					break
				}
				if k > 0 && string(c.Assignments[0].ByteSignatures) != string([]byte{0, byte(i)}) {
					fail("delivery %d of bridge %s changes an earlier one", k, x.Addr)
					break
				}
			}
		}
	}
	run(mk(0, ab, []byte{}), true, "genuine delivery, empty list")
	run(mk(1, ab, sigs), false, "signature of another key")
	ch := func(k string, b []byte) map[string]interface{} {
		pm := mk(0, ab, sigs)
		pm[k] = b
		return pm
	}
	run(ch("signatures", []byte("another")), false, "signature list replaced")
	run(ch("assignment", bridge.EncodeAssignment(&bridge.Assignment{Addr: "evil", Nym: prov, NymR: nym})), false, "assignment replaced")
	s := mk(0, ab, sigs)["signature"].([]byte)
	run(ch("signature", []byte{}), false, "no signature")
	for i := 0; i < len(s); i += 7 {
		b := append([]byte{}, s...)
		b[i] ^= 1
		run(ch("signature", b), false, "signature changed")
	}
	for _, l := range []int{1, len(sigs) / 2, len(sigs) - 1} {
		run(ch("signatures", sigs[:l]), false, "signature list truncated")
	}
}
