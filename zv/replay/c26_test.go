package coordinator

import (
	"testing"
	"zRep/cmd/bridge"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func min1(n int) int {
	if n > 1 {
		return 1
	}
	return n
}
func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	for _, ns := range []int{0, 1, 3} {
		for _, g := range []abstract.Point{nil, suite.Point().Mul(nil, zvlib.Rnd())} {
			cx, cpub := zvlib.Key(nil)
			var sx []abstract.Secret
			var servers []ServerInfo
			for i := 0; i < ns; i++ {
				x, p := zvlib.Key(nil)
				sx = append(sx, x)
				servers = append(servers, ServerInfo{Addr: zvlib.Local(), PublicKey: p})
			}
			var vx []abstract.Secret
			var voters []abstract.Point
			for i := 0; i < 3; i++ {
				x, p := zvlib.Key(g)
				vx = append(vx, x)
				voters = append(voters, p)
			}
			ox, outsider := zvlib.Key(g)
			prov, other := voters[1], voters[2]
			asg := bridge.EncodeAssignment(&bridge.Assignment{NymR: voters[0], Addr: "b1", Nym: prov})
			asg2 := bridge.EncodeAssignment(&bridge.Assignment{NymR: voters[0], Addr: "b1", Nym: other})
			sigsFor := func(a []byte) [][]byte {
				var l [][]byte
				for _, x := range sx {
					l = append(l, zvlib.Sign(x, a, nil))
				}
				return append(l, zvlib.Sign(cx, a, nil))
			}
			vote := func(x abstract.Secret, n abstract.Point, a []byte, sigs [][]byte, fb int) map[string]interface{} {
				pm := map[string]interface{}{"nym": zvlib.Bytes(n), "assignment": a, "signatures": util.Encode2DByteArray(sigs), "feedback": fb}
				msg := append(append(append(append([]byte{}, zvlib.Bytes(n)...), a...), pm["signatures"].([]byte)...), util.IntToByte(fb)...)
				pm["signature"] = zvlib.Sign(x, msg, g)
				return pm
			}
			run := func(pm map[string]interface{}) (map[string]int, bool) {
				anonCoordinator = &Coordinator{Suite: suite, G: g, PublicKey: cpub, LocalAddr: zvlib.Local(), ServerList: servers, AllClientsPublicKeys: voters,
					ReputationDiffMap: map[string]int{other.String(): 7}}
				stop := zvlib.Stops(func() { handleVote(pm, zvlib.Local()) })
				return anonCoordinator.ReputationDiffMap, stop
			}
			counts := func(what string, pm map[string]interface{}, who abstract.Point, fb int) {
				m, stop := run(pm)
				want := map[string]int{other.String(): 7}
				want[who.String()] += fb
				for k, v := range m {
					if want[k] != v {
						fail("%d servers: %s: score %d instead of %d", ns, what, v, want[k])
					}
				}
				for k, v := range want {
					if m[k] != v {
						fail("%d servers: %s: score %d instead of %d (stops: %v)", ns, what, m[k], v, stop)
					}
				}
			}
			refused := func(what string, pm map[string]interface{}) {
				m, _ := run(pm)
				if len(m) != 1 || m[other.String()] != 7 {
					fail("%d servers: %s: the vote counts", ns, what)
				}
			}
			for i, x := range vx {
				counts("vote for", vote(x, voters[i], asg, sigsFor(asg), 1), prov, 1)
				counts("vote against", vote(x, voters[i], asg, sigsFor(asg), -1), prov, -1)
				counts("vote for a provider with a score", vote(x, voters[i], asg2, sigsFor(asg2), -1), other, -1)
			}
			for _, fb := range []int{0, 2, -2, 3, -3, 100, 1 << 20} {
				refused("feedback other than 1 and -1", vote(vx[0], voters[0], asg, sigsFor(asg), fb))
			}
			refused("voter who does not take part", vote(ox, outsider, asg, sigsFor(asg), 1))
			refused("vote signed by somebody else", vote(ox, voters[0], asg, sigsFor(asg), 1))
			refused("vote signed by another voter", vote(vx[1], voters[0], asg, sigsFor(asg), 1))
			for i := 0; i <= ns; i++ {
				s := sigsFor(asg)
				s[i] = zvlib.Sign(ox, asg, nil)
				refused("foreign signature on the assignment", vote(vx[0], voters[0], asg, s, 1))
				s = sigsFor(asg)
				s[i] = sigsFor(asg2)[i]
				refused("signature on another assignment", vote(vx[0], voters[0], asg, s, 1))
				s = sigsFor(asg)
				s[i] = []byte{}
				refused("missing signature", vote(vx[0], voters[0], asg, s, 1))
				s = sigsFor(asg)
				refused("one signature left out", vote(vx[0], voters[0], asg, append(append([][]byte{}, s[:i]...), s[i+1:]...), 1))
				refused("only one signature", vote(vx[0], voters[0], asg, s[i:i+1], 2*(1-min1(ns))+1))
				s = append([][]byte{zvlib.Sign(ox, asg, nil)}, s...)
				refused("shifted signature list", vote(vx[0], voters[0], asg, s, 1))
				s = sigsFor(asg)
				refused("short signature list", vote(vx[0], voters[0], asg, s[:i], 1))
				for j := 0; j < i; j++ {
					s = sigsFor(asg)
					s[i], s[j] = s[j], s[i]
					refused("exchanged signatures", vote(vx[0], voters[0], asg, s, 1))
					s = sigsFor(asg)
					s[i] = s[j]
					refused("the same signature twice", vote(vx[0], voters[0], asg, s, 1))
				}
			}
			refused("empty signature list", vote(vx[0], voters[0], asg, [][]byte{}, 1))
			good := vote(vx[0], voters[0], asg, sigsFor(asg), 1)
			alt := func(k string, v interface{}) map[string]interface{} {
				pm := map[string]interface{}{}
				for a, b := range good {
					pm[a] = b
				}
				pm[k] = v
				return pm
			}
			refused("feedback changed after signing", alt("feedback", -1))
			refused("voter changed after signing", alt("nym", zvlib.Bytes(voters[1])))
			pm := alt("assignment", asg2)
			pm["signatures"] = util.Encode2DByteArray(sigsFor(asg2))
			refused("assignment changed after signing", pm)
			refused("signature list changed after signing", alt("signatures", util.Encode2DByteArray(sigsFor(asg))))
			refused("no signature", alt("signature", []byte{}))
			refused("malformed assignment", vote(vx[0], voters[0], []byte{1, 2, 3}, sigsFor([]byte{1, 2, 3}), 1))
		}
	}
}
