package coordinator

import (
	"strings"
	"testing"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func zvPost(nym abstract.Point, addr string, sig []byte) map[string]interface{} {
	return map[string]interface{}{"bridge_addr": addr, "nym": zvlib.Bytes(nym), "signature": sig}
}
func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	for _, g := range []abstract.Point{nil, suite.Point().Mul(nil, zvlib.Rnd())} {
		x, nym := zvlib.Key(g)
		y, other := zvlib.Key(g)
		body := func(addr string, n abstract.Point) []byte { return append([]byte(addr), zvlib.Bytes(n)...) }
		g2 := suite.Point().Mul(nil, zvlib.Rnd())
		run := func(pm map[string]interface{}) map[string]BridgeInfo {
			anonCoordinator = &Coordinator{Suite: suite, G: g, LocalAddr: zvlib.Local(), Bridges: map[string]BridgeInfo{"old": {Nym: other, Used: false}, "used": {Nym: nym, Used: true}}}
			zvlib.Stops(func() { handlePostBridge(pm, zvlib.Local()) })
			return anonCoordinator.Bridges
		}
		check := func(what string, pm map[string]interface{}, recorded bool) {
			m := run(pm)
			n := len(m)
			addr := pm["bridge_addr"].(string)
			b, ok := m[addr]
			old := addr == "old" || addr == "used"
			if recorded {
				if !ok || b.Used || b.Nym == nil || string(zvlib.Bytes(b.Nym)) != string(pm["nym"].([]byte)) {
					fail("%s: the bridge is not recorded unused under its provider (%v)", what, ok)
				}
				if !old && n != 3 || old && n != 2 {
					fail("%s: %d bridges recorded", what, n)
				}
			} else if n != 2 {
				fail("%s: the bridge is recorded", what)
			}
			if !(recorded && addr == "old") && (m["old"].Used || !m["old"].Nym.Equal(other)) || !(recorded && addr == "used") && (!m["used"].Used || !m["used"].Nym.Equal(nym)) {
				fail("%s: another bridge changes", what)
			}
		}
		sig := zvlib.Sign(x, body("1.2.3.4:5", nym), g)
		check("valid post", zvPost(nym, "1.2.3.4:5", sig), true)
		check("valid post (empty address)", zvPost(nym, "", zvlib.Sign(x, body("", nym), g)), true)
		for _, a := range []string{" 1.2.3.4:5", "1.2.3.4:5\n", "http://Bridge.Example/", "[::1]:09", "\x00\xff", strings.Repeat("a", 700), "OLD", "old "} {
			check("valid post of an unusual address", zvPost(nym, a, zvlib.Sign(x, body(a, nym), g)), true)
		}
		check("post by somebody else", zvPost(nym, "1.2.3.4:5", zvlib.Sign(y, body("1.2.3.4:5", nym), g)), false)
		check("signature for another address", zvPost(nym, "1.2.3.4:6", sig), false)
		check("signature for a longer address", zvPost(nym, "1.2.3.4:55", sig), false)
		check("signature of another pseudonym", zvPost(other, "1.2.3.4:5", sig), false)
		check("signature over another pseudonym", zvPost(nym, "1.2.3.4:5", zvlib.Sign(x, body("1.2.3.4:5", other), g)), false)
		check("signature over the address alone", zvPost(nym, "1.2.3.4:5", zvlib.Sign(x, []byte("1.2.3.4:5"), g)), false)
		check("signature over the pseudonym alone", zvPost(nym, "1.2.3.4:5", zvlib.Sign(x, zvlib.Bytes(nym), g)), false)
		check("signature with another generator", zvPost(nym, "1.2.3.4:5", zvlib.Sign(x, body("1.2.3.4:5", nym), g2)), false)
		check("forged post over a recorded bridge", zvPost(nym, "old", zvlib.Sign(y, body("old", nym), g)), false)
		check("forged post over a used bridge", zvPost(other, "used", zvlib.Sign(x, body("used", other), g)), false)
		for i := 0; i < len(sig); i += 13 {
			bad := append([]byte{}, sig...)
			bad[i] ^= 4
			check("altered signature", zvPost(nym, "1.2.3.4:5", bad), false)
		}
		check("empty signature", zvPost(nym, "1.2.3.4:5", []byte{}), false)
		// the pseudonym belongs to another generator
		if g != nil {
			_, n2 := zvlib.Key(nil)
			check("signature with the default generator", zvPost(n2, "1.2.3.4:5", zvlib.Sign(x, body("1.2.3.4:5", n2), nil)), false)
		}
	}
}
