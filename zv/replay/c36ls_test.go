package server

import (
	"net"
	"strings"
	"testing"
	"time"
	"zRep/primitive/pedersen"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

// whatever its size and however it arrives, a message that is sent to the listener is handled, in order
func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	pb := pedersen.CreateBaseFromSuite(suite)
	_ = pb
	anonServer = &AnonServer{Suite: suite, PedersenBase: pb}
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		defer func() { recover() }()
		startAnonServerListener(l)
	}()
	send := func(v abstract.Point, pad int, cut int) {
		e := &proto.Event{EventType: proto.BCAST_PEDERSEN_H, SrcAddr: "127.0.0.1:9", Params: map[string]interface{}{"h": zvlib.Bytes(v), "pad": strings.Repeat("x", pad)}}
		b := util.Encode(e)
		c, err := net.DialTCP("tcp", nil, l.Addr().(*net.TCPAddr))
		if err != nil {
			t.Fatal(err)
		}
		if cut > 0 {
			n := len(b) / cut
			c.Write(b[:n])
			time.Sleep(300 * time.Millisecond)
			b = b[n:]
		}
		c.Write(b)
		c.Close()
	}
	is := func(v abstract.Point) bool {
		for i := 0; i < 150; i++ {
			if anonServer.PedersenBase.HT.String() == v.String() {
				return true
			}
			time.Sleep(20 * time.Millisecond)
		}
		return false
	}
	for _, c := range [][2]int{{0, 0}, {10, 0}, {3000, 0}, {5000, 0}, {70000, 0}, {3000000, 0}, {0, 2}, {5000, 2}, {3000000, 3}, {0, 50}, {10, 0}} {
		_, v := zvlib.Key(nil)
		send(v, c[0], c[1])
		if !is(v) {
			fail("a message with %d bytes of padding, cut at 1/%d, has no effect", c[0], c[1])
			return
		}
	}
	var v abstract.Point
	for i := 0; i < 8; i++ {
		_, v = zvlib.Key(nil)
		send(v, (8-i)*20000, 0)
	}
	if !is(v) {
		fail("the last of several messages does not take effect last")
	}
	time.Sleep(300 * time.Millisecond)
	if !is(v) {
		fail("the last of several messages does not take effect last")
	}
}
