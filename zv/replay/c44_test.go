package coordinator

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"testing"
	"time"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"
)

// two rounds of a coordinator that is started as the program starts it, with one server and one client played here
func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	dir, err := os.MkdirTemp("", "zv44")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Fatal(err)
	}
	at := l.Addr().(*net.TCPAddr)
	l.Close()
	os.Mkdir(filepath.Join(dir, "config"), 0755)
	conf := []byte(fmt.Sprintf("coordinator_ip=127.0.0.1\ncoordinator_port=%d\nlocal_port=%d\n", at.Port, at.Port))
	os.WriteFile(filepath.Join(dir, "config", "local.properties"), conf, 0644)
	os.WriteFile(filepath.Join(dir, "config", "conn.properties"), conf, 0644)
	os.Chdir(dir)
	defer os.Chdir("/")
	in, keys, _ := os.Pipe()
	os.Stdin = in
	os.Stdout, _ = os.Open(os.DevNull)
	key := func() { keys.Write([]byte("\n")) }
	server, client := zvlib.NewPeer(), zvlib.NewPeer()
	defer server.Close()
	defer client.Close()
	go Launch()
	for i := 0; ; i++ {
		c, e := net.DialTimeout("tcp", at.String(), time.Second)
		if e == nil {
			break2(c)
			break
		}
		if i > 600 {
			fail("the coordinator does not listen before the operator starts the rounds")
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	time.Sleep(200 * time.Millisecond)
	need := func(p *zvlib.Peer, kind int, what string) map[string]interface{} {
		for i := 0; i < 8; i++ {
			if e := p.Next(); e != nil {
				if e.EventType != kind {
					fail("%s: a message of type %d comes instead of one of type %d", what, e.EventType, kind)
					return nil
				}
				return e.Params
			}
		}
		fail("%s: no message of type %d", what, kind)
		return nil
	}
	quiet := func(p *zvlib.Peer, what string) bool {
		if e := p.Next(); e != nil {
			fail("%s: a message of type %d", what, e.EventType)
			return false
		}
		return true
	}
	send := func(kind int, pm map[string]interface{}) {
		util.SendEvent(server.Addr, at, &proto.Event{EventType: kind, Params: pm})
	}
	suite := zvlib.Suite()
	_, pub := zvlib.Key(nil)
	send(proto.SERVER_REGISTER, map[string]interface{}{"public_key": zvlib.Bytes(pub)})
	if need(server, proto.SERVER_REGISTER_REPLY, "registration") == nil {
		return
	}
	c := anonCoordinator
	_, cp := zvlib.Key(nil)
	c.AddClient(cp, client.Addr)
	if !quiet(server, "before the operator starts the rounds") {
		return
	}
	h := c.PedersenBase.HT.String()
	size := 0
	key()
	if need(server, proto.BCAST_PEDERSEN_H, "start") == nil {
		return
	}
	for round := 1; round <= 3; round++ {
		what := fmt.Sprintf("round %d", round)
		pm := need(server, proto.ANNOUNCEMENT, what)
		if pm == nil {
			return
		}
		ks, _ := pm["keys"].([]byte)
		vs, _ := pm["vals"].([]byte)
		n := len(util.ProtobufDecodePointList(ks))
		if round == 1 {
			if n == 0 {
				fail("no fillers in the first round")
			}
			if c.PedersenBase.HT.String() != h {
				fail("the setup changes the generator")
			}
		} else if n != size {
			fail("%s: %d members instead of %d", what, n, size)
		}
		if len(c.MsgLog) != 0 || len(c.RequesterAddrs) != 0 || len(c.NewClientsBuffer) != 0 {
			fail("%s starts with messages, requesters or newcomers of the round before", what)
		}
		if round != 2 {
			key() // too early: posting ends only after the table is back
		}
		if !quiet(client, what+", before the table is back") || !quiet(server, what+", before the table is back") {
			return
		}
		if round == 3 { // nobody takes part any more
			for k := range c.Clients {
				delete(c.Clients, k)
			}
		}
		_, g := zvlib.Key(nil)
		send(proto.ANNOUNCEMENT, map[string]interface{}{"keys": ks, "vals": vs, "g": zvlib.Bytes(g), "GT": pm["GT"], "HT": pm["HT"]})
		if need(server, proto.ANNOUNCEMENT_FINALIZE, what) == nil || round < 3 && need(client, proto.ANNOUNCEMENT_FINALIZE, what) == nil {
			return
		}
		if round == 2 {
			if !quiet(client, what+", while posting") || !quiet(server, what+", while posting") {
				return
			}
			key()
		}
		if round < 3 && need(client, proto.VOTE, what) == nil {
			return
		}
		if !quiet(server, what+", while voting") {
			return
		}
		_, nym := zvlib.Key(g)
		c.AddClientInBuffer(nym, suite.Point().Mul(c.PedersenBase.HT, zvlib.Rnd()))
		c.MsgLog = append(c.MsgLog, cp)
		if c.RequesterAddrs == nil {
			c.RequesterAddrs = map[string]*net.TCPAddr{}
		}
		c.RequesterAddrs["x"] = client.Addr
		size = n + 1
		key()
		pm = need(server, proto.ROUND_END, what)
		if pm == nil || round < 3 && need(client, proto.BCAST_PEDERSEN_RDIFF, what) == nil {
			return
		}
		if !quiet(client, what+", before the end is complete") || !quiet(server, what+", before the end is complete") {
			return
		}
		ks, _ = pm["keys"].([]byte)
		if m := len(util.ProtobufDecodePointList(ks)); m != size {
			fail("%s: %d members at the end instead of %d", what, m, size)
		}
		send(proto.ROUND_END, map[string]interface{}{"keys": pm["keys"], "vals": pm["vals"], "GT": pm["GT"], "HT": pm["HT"]})
		if round < 3 && need(client, proto.ROUND_END, what) == nil {
			return
		}
	}
}

// a connection that only shows that somebody listens; its end would stop the listener, so it stays open for now
func break2(c net.Conn) {
	e := &proto.Event{EventType: -7, SrcAddr: "127.0.0.1:9", Params: map[string]interface{}{}}
	c.Write(util.Encode(e))
	c.Close()
}
