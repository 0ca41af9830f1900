package coordinator

import (
	"math/big"
	"net"
	"testing"
	"zRep/primitive/pedersen"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	x, pub := zvlib.Key(nil)
	p1, p2 := zvlib.NewPeer(), zvlib.NewPeer()
	defer p1.Close()
	defer p2.Close()
	for round, n := range []int{0, 1, 2, 5, 9, 1, 4, 3} {
		clients, servers := []int{1, 1, 0, 2, 1, 0, 2, 1}[round], []int{1, 1, 2, 1, 1, 1, 3, 1}[round]
		c := &Coordinator{Suite: suite, PrivateKey: x, PublicKey: pub, LocalAddr: zvlib.Local(), Status: 77,
			Clients: map[string]*net.TCPAddr{},
			Bridges: map[string]BridgeInfo{}, BeginningKeyMap: map[string]abstract.Point{}, BeginningCommMap: map[string]abstract.Point{},
			EndingKeyMap: map[string]abstract.Point{}, EndingCommMap: map[string]abstract.Point{}, ReputationDiffMap: map[string]int{},
			RequesterAddrs: map[string]*net.TCPAddr{}}
		anonCoordinator = c
		for i := 0; i < clients; i++ {
			c.Clients[string([]byte{'c', byte(i)})] = p1.Addr
		}
		for i := 0; i < servers; i++ {
			c.ServerList = append(c.ServerList, ServerInfo{Addr: p2.Addr, PublicKey: pub})
		}
		got := func(p *zvlib.Peer, k int, what string) {
			for i := 0; i < k; i++ {
				if p.Next() == nil {
					fail("%s: a message is missing", what)
				}
			}
			if p.Quiet() != nil {
				fail("%s: more than %d messages", what, k)
			}
		}
		c.PedersenBase = pedersen.CreateMinimalBaseFromSuite(suite)
		_, c.PedersenBase.HT = zvlib.Key(nil)
		names := []string{}
		ks, vs := []abstract.Point{}, []abstract.Point{}
		for i := 0; i < n; i++ {
			_, k := zvlib.Key(nil)
			_, v := zvlib.Key(nil)
			ks, vs = append(ks, k), append(vs, v)
			names = append(names, k.String())
			c.AddClientInBuffer(k, v)
			if len(c.NewClientsBuffer) != i+1 || !c.NewClientsBuffer[i].Nym.Equal(k) || !c.NewClientsBuffer[i].PComm.Equal(v) {
				fail("a newcomer is not on record")
			}
			c.MsgLog = append(c.MsgLog, k)
			c.VoteRecords = append(c.VoteRecords, big.NewInt(int64(i)))
			c.RequesterAddrs[k.String()] = p1.Addr
			c.Bridges[k.String()] = BridgeInfo{Nym: k}
			c.ReputationDiffMap[k.String()] = i - 3
			c.AddIntoRepMap(k, v)
			c.AddIntoEndingMap(v, k)
		}
		// the votes
		if zvlib.Stops(vote) {
			fail("n=%d: starting the vote stops the coordinator", n)
			return
		}
		got(p1, clients, "vote")
		if len(c.VoteRecords) != 0 {
			fail("n=%d: %d votes are left when the voting starts", n, len(c.VoteRecords))
		}
		// the start of the round
		if zvlib.Stops(clearBuffer) {
			fail("n=%d: clearing stops the coordinator", n)
			return
		}
		if len(c.NewClientsBuffer) != 0 || len(c.MsgLog) != 0 || len(c.RequesterAddrs) != 0 || c.RequesterAddrs == nil {
			fail("n=%d: %d newcomers, %d messages and %d requesters are left", n, len(c.NewClientsBuffer), len(c.MsgLog), len(c.RequesterAddrs))
		}
		if len(c.BeginningKeyMap) != n || len(c.BeginningCommMap) != n || len(c.EndingKeyMap) != n || len(c.EndingCommMap) != n || len(c.Clients) != clients || len(c.ServerList) != servers || len(c.Bridges) != n {
			fail("n=%d: clearing removes something else", n)
		}
		for i, k := range ks {
			if o := c.BeginningKeyMap[names[i]]; o == nil || !o.Equal(k) {
				fail("the table loses a participant")
			}
			if o := c.BeginningCommMap[names[i]]; o == nil || !o.Equal(vs[i]) {
				fail("the table loses a commitment")
			}
			if o := c.EndingCommMap[vs[i].String()]; o == nil || !o.Equal(k) {
				fail("the table loses a commitment")
			}
		}
		// the scores
		if zvlib.Stops(func() {
			handleAnnouncement(map[string]interface{}{"g": zvlib.Bytes(pub), "GT": zvlib.Bytes(c.PedersenBase.GT), "HT": zvlib.Bytes(c.PedersenBase.HT),
				"keys": util.ProtobufEncodePointList(ks), "vals": util.ProtobufEncodePointList(vs)})
		}) {
			fail("n=%d: the announcement stops the coordinator", n)
			return
		}
		got(p1, clients, "announcement to clients")
		got(p2, servers, "announcement to servers")
		if len(c.ReputationDiffMap) != 0 || c.ReputationDiffMap == nil {
			fail("n=%d: %d scores are left when the round starts", n, len(c.ReputationDiffMap))
		}
		c.ClearBridges()
		if len(c.Bridges) != 0 || c.Bridges == nil {
			fail("n=%d: %d bridges are left", n, len(c.Bridges))
		}
	}
}
