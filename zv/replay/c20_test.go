package coordinator

import (
	"fmt"
	"testing"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	var nyms []abstract.Point
	for i := 0; i < 3; i++ {
		_, n := zvlib.Key(nil)
		nyms = append(nyms, n)
	}
	for round := 0; round < 6; round++ {
		req := nyms[(round+2)%3]
		for n := 0; n < 7; n++ {
			for free := 0; free <= n; free++ {
				m := map[string]BridgeInfo{}
				for i := 0; i < n; i++ {
					m[fmt.Sprintf("b%d", i)] = BridgeInfo{Nym: nyms[i%2], Used: i >= free}
				}
				co := &Coordinator{Suite: suite, LocalAddr: zvlib.Local(), Bridges: m}
				anonCoordinator = co
				taken := map[string]bool{}
				for _, num := range []int{-1, 0, 1, n - 1, 2, n, n + 2} {
					before := map[string]BridgeInfo{}
					left := 0
					for k, v := range co.Bridges {
						before[k] = v
						if !v.Used {
							left++
						}
					}
					what := fmt.Sprintf("%d bridges, %d unused, %d requested", n, left, num)
					res := co.AssignBridges(num, req)
					want := num
					if want > left {
						want = left
					}
					if want < 0 {
						want = 0
					}
					if len(res) > want {
						fail("%s: %d assigned", what, len(res))
					} else if len(res) < want {
						fail("%s: only %d assigned", what, len(res))
					}
					now := map[string]bool{}
					for _, a := range res {
						b, ok := before[a.Addr]
						if !ok || b.Used || taken[a.Addr] {
							fail("%s: %q assigned, which is not an unused bridge", what, a.Addr)
							continue
						}
						if now[a.Addr] {
							fail("%s: %q assigned twice", what, a.Addr)
						}
						now[a.Addr] = true
						taken[a.Addr] = true
						if a.Nym == nil || !a.Nym.Equal(b.Nym) {
							fail("%s: %q assigned under a foreign provider", what, a.Addr)
						}
						if a.NymR == nil || !a.NymR.Equal(req) {
							fail("%s: %q assigned to a foreign requester", what, a.Addr)
						}
					}
					if len(co.Bridges) != len(before) {
						fail("%s: %d bridges recorded afterwards", what, len(co.Bridges))
					}
					for k, v := range before {
						w, ok := co.Bridges[k]
						if !ok || w.Nym == nil || !w.Nym.Equal(v.Nym) || w.Used != (v.Used || now[k]) {
							fail("%s: record of %q changes", what, k)
						}
					}
				}
			}
		}
	}
}
