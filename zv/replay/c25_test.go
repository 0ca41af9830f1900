package coordinator

import (
	"bytes"
	"math/rand"
	"net"
	"testing"
	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

// histories of server replies against a model of the signature log
func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	cx, cpub := zvlib.Key(nil)
	r := rand.New(rand.NewSource(25))
	reqA, reqB := zvlib.NewPeer(), zvlib.NewPeer()
	defer reqA.Close()
	defer reqB.Close()
	_, nymA := zvlib.Key(nil)
	_, nymB := zvlib.Key(nil)
	_, prov := zvlib.Key(nil)
	stranger := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 4242}
	{ // finding the server of an address
		var servers []ServerInfo
		ips := []net.IP{net.IPv4(127, 0, 0, 1), net.IPv4(127, 0, 0, 2), net.IPv4(10, 1, 1, 1), net.ParseIP("::1"), net.IPv4(127, 0, 0, 1).To4()}
		ports := []int{7000, 7001, 7000 ^ 1<<15, 7000 ^ 1<<8, 7000 ^ 2, 700, 0, 65535}
		for _, ip := range ips[:3] {
			for _, p := range ports[:3] {
				servers = append(servers, ServerInfo{Addr: &net.TCPAddr{IP: ip, Port: p}})
			}
		}
		servers = append(servers, servers[1])
		c := &Coordinator{Suite: suite, ServerList: servers}
		anonCoordinator = c
		for _, ip := range ips {
			for _, p := range ports {
				a := &net.TCPAddr{IP: ip, Port: p}
				want := -1
				for i, s := range servers {
					if want < 0 && s.Addr.IP.Equal(ip) && s.Addr.Port == p {
						want = i
					}
				}
				got := -2
				zvlib.Stops(func() { got = c.GetServerIndex(a) })
				if got != want {
					fail("a message from %v is attributed to server %d instead of %d", a, got, want)
				}
			}
		}
	}
	for round := 0; round < 25; round++ {
		ns := 1 + r.Intn(3)
		var servers []ServerInfo
		for i := 0; i < ns; i++ {
			_, k := zvlib.Key(nil)
			servers = append(servers, ServerInfo{Addr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, byte(1+i%2)), Port: 7000 + i/2}, PublicKey: k})
		}
		c := &Coordinator{Suite: suite, PrivateKey: cx, PublicKey: cpub, LocalAddr: zvlib.Local(), ServerList: servers,
			RequesterAddrs: map[string]*net.TCPAddr{nymA.String(): reqA.Addr, nymB.String(): reqB.Addr},
			Bridges:        map[string]BridgeInfo{}, AssignmentSignaturesLog: map[string]AssignmentSignatures{}}
		anonCoordinator = c
		names := []string{"a", "b", "c"}
		asg := map[string]*bridge.Assignment{}
		want := map[string][][]byte{}
		for i, n := range names {
			who := []abstract.Point{nymA, nymB}[i%2]
			asg[n] = &bridge.Assignment{NymR: who, Addr: n, Nym: prov}
			c.Bridges[n] = BridgeInfo{Nym: prov, Used: true}
			c.InitAssignmentSignatures(n)
			if e := c.AssignmentSignaturesLog[n]; len(e.Signatures) != ns+1 || e.Count != 0 {
				fail("%d servers: a new entry has %d positions and count %d", ns, len(e.Signatures), e.Count)
				return
			}
			want[n] = make([][]byte, ns+1)
			want[n][ns] = zvlib.Sign(cx, bridge.EncodeAssignment(asg[n]), nil)
			c.AddAssignmentSignature(n, ns, want[n][ns])
		}
		for step := 0; step < 10; step++ {
			s := r.Intn(ns + 1)
			from := stranger
			if s < ns {
				from = &net.TCPAddr{IP: servers[s].Addr.IP, Port: servers[s].Addr.Port}
			}
			success := r.Intn(6) > 0
			var list []bridge.Assignment
			var sigs [][]byte
			type delivery struct {
				name string
				sigs [][]byte
			}
			var exp []delivery
			for k := r.Intn(4); k >= 0; k-- {
				n := names[r.Intn(3)]
				sig := make([]byte, 1+r.Intn(3))
				r.Read(sig)
				if r.Intn(5) == 0 {
					sig = []byte{}
				}
				list = append(list, *asg[n])
				sigs = append(sigs, sig)
				if !success || s == ns {
					continue
				}
				if len(sig) > 0 && len(want[n][s]) == 0 {
					want[n][s] = sig
				}
				full := true
				for _, x := range want[n] {
					full = full && len(x) > 0
				}
				if full {
					exp = append(exp, delivery{n, append([][]byte{}, want[n]...)})
				}
			}
			pm := map[string]interface{}{"success": success, "assignments": bridge.EncodeAssignmentList(list), "signatures": util.Encode2DByteArray(sigs)}
			if zvlib.Stops(func() { handleGotSignatures(pm, from) }) {
				fail("%d servers: a reply stops the coordinator", ns)
				return
			}
			for _, e := range exp {
				peer := reqA
				if asg[e.name].NymR.Equal(nymB) {
					peer = reqB
				}
				ev := peer.Next()
				if ev == nil {
					fail("%d servers: assignment %s with all signatures is not delivered", ns, e.name)
					return
				}
				ab, _ := ev.Params["assignment"].([]byte)
				sb, _ := ev.Params["signatures"].([]byte)
				cs, _ := ev.Params["signature"].([]byte)
				if ev.EventType != proto.GOT_SIGNS || !bytes.Equal(ab, bridge.EncodeAssignment(asg[e.name])) {
					fail("%d servers: something else than assignment %s is delivered", ns, e.name)
					return
				}
				got := util.Decode2DByteArray(sb)
				same := len(got) == ns+1
				for i := 0; same && i <= ns; i++ {
					same = bytes.Equal(got[i], e.sigs[i])
				}
				if !same {
					fail("%d servers: the delivered signatures of %s are not those of the servers in order and the coordinator", ns, e.name)
				}
				if !zvlib.Verifies(cpub, append(append([]byte{}, ab...), sb...), cs, nil) {
					fail("%d servers: the delivery of %s is not signed by the coordinator", ns, e.name)
				}
			}
			for _, n := range names {
				if b := c.Bridges[n]; !b.Used || b.Nym == nil || !b.Nym.Equal(prov) {
					fail("%d servers: bridge %s can be handed out again", ns, n)
					return
				}
				e := c.AssignmentSignaturesLog[n]
				cnt := 0
				for i, x := range want[n] {
					if len(x) > 0 {
						cnt++
					}
					if i >= len(e.Signatures) || !bytes.Equal(e.Signatures[i], x) {
						fail("%d servers: position %d of %s holds a different signature", ns, i, n)
						return
					}
				}
				if e.Count != cnt {
					fail("%d servers: %d signatures of %s are counted as %d", ns, cnt, n, e.Count)
					return
				}
			}
		}
		for _, p := range []*zvlib.Peer{reqA, reqB} {
			if ev := p.Quiet(); ev != nil {
				fail("%d servers: an assignment is delivered without all signatures or twice", ns)
				return
			}
		}
	}
}
