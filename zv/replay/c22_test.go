package coordinator

import (
	"net"
	"testing"
	"zRep/cmd/bridge"
	"zRep/primitive/pedersen"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	fb := zvlib.FO()
	pb := pedersen.CreateBaseFromSuite(suite)
	cx, cpub := zvlib.Key(nil)
	from := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 4242}
	var peers []*zvlib.Peer
	var servers []ServerInfo
	for i := 0; i < 3; i++ {
		p := zvlib.NewPeer()
		defer p.Close()
		_, k := zvlib.Key(nil)
		peers = append(peers, p)
		servers = append(servers, ServerInfo{Addr: p.Addr, PublicKey: k})
	}
	fields := []string{"nym", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_equal"}
	for _, g := range []abstract.Point{nil, suite.Point().Mul(nil, zvlib.Rnd())} {
		x, nym := zvlib.Key(g)
		ox, other := zvlib.Key(g)
		_, prov := zvlib.Key(g)
		R := zvlib.Rnd()
		var log map[string]AssignmentSignatures
		var before map[string]*net.TCPAddr
		run := func(pm map[string]interface{}, posted int) {
			c := &Coordinator{Suite: suite, G: g, PrivateKey: cx, PublicKey: cpub, LocalAddr: zvlib.Local(), ServerList: servers, PedersenBase: pb, FujiOkamBase: fb,
				RequesterAddrs: map[string]*net.TCPAddr{}, Bridges: map[string]BridgeInfo{}, AssignmentSignaturesLog: map[string]AssignmentSignatures{},
				EndingCommMap: map[string]abstract.Point{nym.String(): pb.CommitWithR(zvlib.Sec(5), R), other.String(): pb.CommitWithR(zvlib.Sec(7), R)}}
			for i := 0; i < posted; i++ {
				c.Bridges[string(rune('a'+i))] = BridgeInfo{Nym: prov}
			}
			c.Bridges["used"] = BridgeInfo{Nym: prov, Used: true}
			for k, v := range before {
				c.RequesterAddrs[k] = v
			}
			anonCoordinator = c
			zvlib.Stops(func() { handleRequestBridges(pm, from) })
			log = c.AssignmentSignaturesLog
		}
		sign := func(pm map[string]interface{}, x abstract.Secret) map[string]interface{} {
			var msg []byte
			msg = append(msg, util.IntToByte(pm["ind"].(int))...)
			for _, k := range fields {
				msg = append(msg, pm[k].([]byte)...)
			}
			pm["signature"] = zvlib.Sign(x, msg, g)
			return pm
		}
		mk := func(ind int) map[string]interface{} {
			p := zvlib.Proof(pb, fb, 5, R, ind)
			p["nym"] = zvlib.Bytes(nym)
			return sign(p, x)
		}
		for rep, c := range [][3]int{{1, 3, 1}, {2, 3, 2}, {1, 3, 1}, {3, 3, 3}, {3, 1, 1}, {2, 0, 0}, {0, 2, 0}, {-1, 3, 0}, {-4, 2, 0}} {
			pm := mk(c[0])
			before = nil
			if rep%2 == 1 {
				before = map[string]*net.TCPAddr{nym.String(): {IP: net.IPv4(127, 0, 0, 1), Port: 1}}
				for i := 0; i < 4*rep; i++ {
					before[string(rune('a'+i))] = nil
				}
			}
			run(pm, c[1])
			if anonCoordinator.RequesterAddrs[nym.String()] != from || rep%2 == 0 && len(anonCoordinator.RequesterAddrs) != 1 || rep%2 == 1 && len(anonCoordinator.RequesterAddrs) != 4*rep+1 {
				fail("the requester is not recorded")
			}
			want := map[string]bool{}
			for a, b := range anonCoordinator.Bridges {
				if b.Used && a != "used" {
					want[a] = true
				}
			}
			if len(want) != c[2] || len(anonCoordinator.Bridges) != c[1]+1 {
				fail("%d bridges used for a request of %d out of %d", len(want), c[0], c[1])
			}
			if len(log) != c[2] {
				fail("%d log entries for %d assignments", len(log), c[2])
			}
			for _, p := range peers {
				e := p.Quiet()
				if c[2] == 0 {
					if e != nil {
						fail("something is sent although nothing is assigned")
					}
					continue
				}
				if e == nil || e.EventType != proto.SIGN_ASSIGNMENTS {
					fail("a server is not asked")
					continue
				}
				if p.Quiet() != nil {
					fail("a server is asked twice")
				}
				for _, k := range fields {
					b, _ := e.Params[k].([]byte)
					if string(b) != string(pm[k].([]byte)) {
						fail("the servers get another %s", k)
					}
				}
				if e.Params["ind"] != pm["ind"] {
					fail("the servers get another indicator")
				}
				b, _ := e.Params["assignments"].([]byte)
				as := bridge.DecodeAssignmentList(b)
				got := map[string]bool{}
				for i, a := range as {
					got[a.Addr] = true
					if !want[a.Addr] || !a.NymR.Equal(nym) || !a.Nym.Equal(prov) {
						fail("assignment of %s to the wrong party or of an unmarked bridge", a.Addr)
					}
					l := log[a.Addr]
					if len(l.Signatures) != 4 || l.Count != 1 || !zvlib.Verifies(cpub, bridge.EncodeAssignment(&as[i]), l.Signatures[3], nil) {
						fail("the signature of the coordinator is not logged for %s", a.Addr)
						continue
					}
					for j := 0; j < 3; j++ {
						if len(l.Signatures[j]) != 0 {
							fail("a new log entry has a signature of server %d", j)
						}
					}
				}
				if len(got) != c[2] || len(as) != c[2] {
					fail("%d assignments sent instead of %d", len(as), c[2])
				}
			}
		}
		refused := func(what string, pm map[string]interface{}) {
			for _, before = range []map[string]*net.TCPAddr{nil, {nym.String(): nil}, {other.String(): nil, "x": nil}} {
				run(pm, 3)
				if len(anonCoordinator.RequesterAddrs) != len(before) || len(log) != 0 {
					fail("%s: the request is recorded", what)
				}
				for k, v := range anonCoordinator.RequesterAddrs {
					if v != nil {
						fail("%s: another address is recorded for %.8s", what, k)
					}
				}
				for a, b := range anonCoordinator.Bridges {
					if b.Used != (a == "used") {
						fail("%s: bridge assigned", what)
					}
				}
				for _, p := range peers {
					if len(p.C) != 0 {
						fail("%s: a server is asked", what)
						p.Next()
					}
				}
			}
		}
		good := mk(3)
		alt := mk(3)
		with := func(kv ...interface{}) map[string]interface{} {
			m := map[string]interface{}{}
			for k, v := range good {
				m[k] = v
			}
			for i := 0; i < len(kv); i += 2 {
				m[kv[i].(string)] = kv[i+1]
			}
			return m
		}
		for _, k := range append([]string{"signature"}, fields[1:]...) {
			refused("field "+k+" of another request", with(k, alt[k]))
		}
		refused("another indicator", with("ind", 2))
		refused("another pseudonym", with("nym", zvlib.Bytes(other)))
		refused("no signature", with("signature", []byte{}))
		refused("signed by somebody else", sign(with(), ox))
		refused("another indicator, signed", sign(with("ind", 4), x))
		refused("commitment of somebody else, signed", sign(with("nym", zvlib.Bytes(other)), ox))
		refused("wrong opening, signed", sign(with("rind", alt["rind"]), x))
		refused("wrong argument, signed", sign(with("arg_nonneg", alt["arg_nonneg"]), x))
		refused("wrong equality argument, signed", sign(with("arg_equal", alt["arg_equal"]), x))
		refused("wrong difference, signed", sign(with("PCommd", alt["PCommd"], "FOCommd", alt["FOCommd"], "arg_nonneg", alt["arg_nonneg"], "arg_equal", alt["arg_equal"]), x))
		more := mk(9)
		refused("more than the reputation", more)
		sx, sn := zvlib.Key(g)
		refused("unknown pseudonym", sign(with("nym", zvlib.Bytes(sn)), sx))
	}
}
