package server

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"testing"
	"time"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"
)

// a server that is started as the program starts it, with its port free or taken
func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	dir, err := os.MkdirTemp("", "zv45")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "config"), 0755)
	os.Chdir(dir)
	defer os.Chdir("/")
	os.Stdout, _ = os.Open(os.DevNull)
	for _, taken := range []bool{false, true} {
		coord := zvlib.NewPeer()
		l, err := net.ListenTCP("tcp", &net.TCPAddr{})
		if err != nil {
			t.Fatal(err)
		}
		port := l.Addr().(*net.TCPAddr).Port
		if !taken {
			l.Close()
		}
		conf := []byte(fmt.Sprintf("coordinator_ip=127.0.0.1\ncoordinator_port=%d\nlocal_port=%d\n", coord.Addr.Port, port))
		os.WriteFile(filepath.Join(dir, "config", "local.properties"), conf, 0644)
		os.WriteFile(filepath.Join(dir, "config", "conn.properties"), conf, 0644)
		go Launch()
		var e *proto.Event
		for i := 0; i < 20 && e == nil; i++ {
			e = coord.Next()
		}
		if e == nil || e.EventType != proto.SERVER_REGISTER {
			fail("the server does not register")
			return
		}
		a, err := net.ResolveTCPAddr("tcp", e.SrcAddr)
		if err != nil || taken && a.Port == port {
			fail("the server registers with another address than its own")
			return
		}
		c, err := net.DialTimeout("tcp", fmt.Sprint("127.0.0.1:", a.Port), 3*time.Second)
		if err != nil {
			fail("nobody listens at the address the server registers with")
			return
		}
		c.Write(util.Encode(&proto.Event{EventType: -7, SrcAddr: "127.0.0.1:9", Params: map[string]interface{}{}}))
		c.Close()
		if e := coord.Next(); e != nil {
			fail("a registering server sends a second message of type %d", e.EventType)
		}
		if taken {
			l.Close()
		}
		coord.Close()
	}
}
