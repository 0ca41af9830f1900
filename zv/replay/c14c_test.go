package coordinator

import (
	"math/big"
	"testing"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	c := &Coordinator{}
	huge := new(big.Int).Lsh(big.NewInt(1), 511)
	all := []*big.Int{}
	for i := int64(0); i < 40; i++ {
		all = append(all, new(big.Int).Add(huge, big.NewInt(i*i-20)), big.NewInt(i-3), new(big.Int).Lsh(big.NewInt(i+7), uint(64*(i%9))))
	}
	on := map[string]bool{}
	for i, y := range all {
		for _, z := range all {
			if c.IsLinkableRecord(new(big.Int).Set(z)) != on[z.String()] {
				fail("with %d tags on record: recognised %v", i, !on[z.String()])
				return
			}
		}
		c.AddToVoteRecords(y)
		on[y.String()] = true
		if len(c.VoteRecords) != i+1 {
			fail("%d tags on record", len(c.VoteRecords))
		}
	}
}
