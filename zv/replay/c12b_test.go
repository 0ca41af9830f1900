package coordinator

import (
	"testing"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	for _, g := range []abstract.Point{nil, suite.Point().Mul(nil, zvlib.Rnd())} {
		x, pub := zvlib.Key(nil)
		used := zvlib.Nonces{}
		for n := 0; n < 2; n++ {
			c := &Coordinator{Suite: suite, G: g, PrivateKey: x, PublicKey: pub, LocalAddr: zvlib.Local()}
			anonCoordinator = c
			for _, m := range []string{"", "a", "a", "another message", "\x00"} {
				sig := c.SignMessage([]byte(m))
				if used.Seen(x, sig) {
					fail("the one-time secret of a signature is used again")
				}
				if !zvlib.Verifies(pub, []byte(m), sig, nil) {
					fail("the signature does not verify under the published key")
				}
				if zvlib.Verifies(pub, []byte(m+"x"), sig, nil) {
					fail("the signature verifies for another message")
				}
			}
		}
	}
}
