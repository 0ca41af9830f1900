package coordinator

import (
	"testing"
	"zRep/primitive/pedersen"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	for _, n := range []int{0, 1, 2, 10, 11, 33} {
		c := &Coordinator{Suite: suite, BeginningKeyMap: map[string]abstract.Point{}, BeginningCommMap: map[string]abstract.Point{},
			EndingKeyMap: map[string]abstract.Point{}, EndingCommMap: map[string]abstract.Point{}}
		anonCoordinator = c
		c.PedersenBase = pedersen.CreateMinimalBaseFromSuite(suite)
		_, c.PedersenBase.GT = zvlib.Key(nil)
		_, c.PedersenBase.HT = zvlib.Key(nil)
		gt, ht := string(zvlib.Bytes(c.PedersenBase.GT)), string(zvlib.Bytes(c.PedersenBase.HT))
		ks, vs := []abstract.Point{}, []abstract.Point{}
		for i := 0; i < 3; i++ {
			_, k := zvlib.Key(nil)
			_, v := zvlib.Key(nil)
			ks, vs = append(ks, k), append(vs, v)
			c.AddIntoRepMap(k, v)
			c.AddIntoEndingMap(v, k)
			if !c.BeginningKeyMap[k.String()].Equal(k) || !c.BeginningCommMap[k.String()].Equal(v) || !c.EndingKeyMap[v.String()].Equal(v) || !c.EndingCommMap[v.String()].Equal(k) {
				fail("an entry is filed wrongly")
			}
		}
		if zvlib.Stops(func() { addFakeClients(n) }) {
			fail("%d fillers stop the coordinator", n)
			return
		}
		if len(c.BeginningKeyMap) != n+3 || len(c.BeginningCommMap) != n+3 || len(c.EndingKeyMap) != 3 || len(c.EndingCommMap) != 3 {
			fail("%d fillers: %d and %d entries", n, len(c.BeginningKeyMap), len(c.BeginningCommMap))
		}
		if string(zvlib.Bytes(c.PedersenBase.GT)) != gt || string(zvlib.Bytes(c.PedersenBase.HT)) != ht {
			fail("the parameters changed")
		}
		for i, k := range ks {
			if o := c.BeginningKeyMap[k.String()]; o == nil || !o.Equal(k) {
				fail("a participant is displaced")
			}
			if o := c.BeginningCommMap[k.String()]; o == nil || !o.Equal(vs[i]) {
				fail("a commitment is displaced")
			}
		}
		seen := map[string]bool{}
		for s, k := range c.BeginningKeyMap {
			if k.String() != s {
				fail("an entry is filed under another name")
			}
			v := c.BeginningCommMap[s]
			if v == nil {
				fail("an entry without commitment")
				continue
			}
			b := string(zvlib.Bytes(v))
			if seen[b] || v.Equal(suite.Point().Null()) || v.Equal(k) {
				fail("commitments are not blinded independently")
			}
			seen[b] = true
		}
		// with a trivial blinding generator only the credit is left in a commitment
		for _, old := range []int{0, 1, 2*n + 3} {
			c.BeginningKeyMap, c.BeginningCommMap = map[string]abstract.Point{}, map[string]abstract.Point{}
			mine := map[string]bool{}
			for i := 0; i < old; i++ {
				_, k := zvlib.Key(nil)
				c.AddIntoRepMap(k, k)
				mine[k.String()] = true
			}
			c.PedersenBase.HT = suite.Point().Null()
			addFakeClients(n)
			if len(c.BeginningCommMap) != n+old {
				fail("%d fillers: %d entries", n, len(c.BeginningCommMap))
			}
			for s, v := range c.BeginningCommMap {
				if mine[s] {
					if !v.Equal(c.BeginningKeyMap[s]) {
						fail("a participant is displaced")
					}
					continue
				}
				if !v.Equal(suite.Point().Null()) {
					fail("a filler starts with credit")
					break
				}
			}
		}
	}
}
