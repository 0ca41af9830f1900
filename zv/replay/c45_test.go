package client

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"testing"
	"time"
	"zRep/cmd/bridge"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"
)

// a client that is started as the program starts it; the coordinator and the operator are played here
func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	dir, err := os.MkdirTemp("", "zv45")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	coord := zvlib.NewPeer()
	defer coord.Close()
	os.Mkdir(filepath.Join(dir, "config"), 0755)
	conf := []byte(fmt.Sprintf("coordinator_ip=127.0.0.1\ncoordinator_port=%d\nlocal_port=%d\n", coord.Addr.Port, coord.Addr.Port))
	os.WriteFile(filepath.Join(dir, "config", "local.properties"), conf, 0644)
	os.WriteFile(filepath.Join(dir, "config", "conn.properties"), conf, 0644)
	os.Chdir(dir)
	defer os.Chdir("/")
	in, line, _ := os.Pipe()
	os.Stdin = in
	os.Stdout, _ = os.Open(os.DevNull)
	go Launch()
	var e *proto.Event
	for i := 0; i < 20 && e == nil; i++ {
		e = coord.Next()
	}
	if e == nil || e.EventType != proto.CLIENT_REGISTER_CONTROLLERSIDE {
		fail("the client does not register")
		return
	}
	c, err := net.DialTimeout("tcp", e.SrcAddr, 3*time.Second)
	if err != nil {
		fail("nobody listens at the address the client registers with")
		return
	}
	c.Write(util.Encode(&proto.Event{EventType: -7, SrcAddr: "127.0.0.1:9", Params: map[string]interface{}{}}))
	c.Close()
	suite := zvlib.Suite()
	d := dissentClient
	if e := coord.Next(); e != nil {
		fail("a registering client sends a second message of type %d", e.EventType)
		return
	}
	_, prov := zvlib.Key(nil)
	d.G = suite.Point().Mul(nil, zvlib.Rnd())
	d.OnetimePseudoNym = suite.Point().Mul(d.G, d.PrivateKey)
	d.FujiOkamBase = zvlib.FO()
	d.Reputation, d.R = 5, zvlib.Rnd()
	d.PCommr = d.PedersenBase.CommitWithR(zvlib.Sec(5), d.R)
	for i := 0; i < 12; i++ {
		d.Assignments = append(d.Assignments, AssignmentInfo{&bridge.Assignment{NymR: d.OnetimePseudoNym, Addr: fmt.Sprint("bridge", i), Nym: prov}, []byte{byte(i)}})
	}
	d.Status = MESSAGE
	time.Sleep(700 * time.Millisecond)
	for _, x := range []struct {
		line string
		kind int
		ok   func(pm map[string]interface{}) bool
	}{
		{"post 10.0.0.1:80", proto.POST_BRIDGE, func(pm map[string]interface{}) bool { return pm["bridge_addr"] == "10.0.0.1:80" }},
		{"post x", proto.POST_BRIDGE, func(pm map[string]interface{}) bool { return pm["bridge_addr"] == "x" }},
		{"nothing", -1, nil}, {"", -1, nil}, {"post10.0.0.1", -1, nil}, {"x post y", -1, nil},
		{"get 3", proto.REQUEST_BRIDGES, func(pm map[string]interface{}) bool { return pm["ind"] == 3 }},
		{"get 5", proto.REQUEST_BRIDGES, func(pm map[string]interface{}) bool { return pm["ind"] == 5 }},
		{"get 0", proto.REQUEST_BRIDGES, func(pm map[string]interface{}) bool { return pm["ind"] == 0 }},
		{"get 6", -1, nil},
		{"vote 0 1", proto.VOTE, func(pm map[string]interface{}) bool { return voted(d, pm, 0, 1) }},
		{"vote 1 0", proto.VOTE, func(pm map[string]interface{}) bool { return voted(d, pm, 1, -1) }},
		{"vote 2 -1", proto.VOTE, func(pm map[string]interface{}) bool { return voted(d, pm, 2, -1) }},
		{"vote 11 7", proto.VOTE, func(pm map[string]interface{}) bool { return voted(d, pm, 11, 1) }},
		{"vote 1 0", proto.VOTE, func(pm map[string]interface{}) bool { return voted(d, pm, 1, -1) }},
		{"post 10.0.0.1:80", proto.POST_BRIDGE, func(pm map[string]interface{}) bool { return pm["bridge_addr"] == "10.0.0.1:80" }},
	} {
		line.Write([]byte(x.line + "\n"))
		if x.ok == nil {
			if e := coord.Quiet(); e != nil {
				fail("%q: a message of type %d", x.line, e.EventType)
			}
			continue
		}
		var e *proto.Event
		for i := 0; i < 6 && e == nil; i++ {
			e = coord.Next()
		}
		if e == nil || e.EventType != x.kind {
			fail("%q: no message of type %d", x.line, x.kind)
		} else if !x.ok(e.Params) {
			fail("%q: the message says something else", x.line)
		} else if e := coord.Quiet(); e != nil {
			fail("%q: a second message", x.line)
		}
	}
}
func voted(d *DissentClient, pm map[string]interface{}, n, f int) bool {
	b, _ := pm["assignment"].([]byte)
	s, _ := pm["signatures"].([]byte)
	return string(b) == string(bridge.EncodeAssignment(d.Assignments[n].Assignment)) && string(s) == string([]byte{byte(n)}) && pm["feedback"] == f
}
