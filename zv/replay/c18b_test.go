package bridge

import (
	"testing"
	"zRep/zvlib"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	same := func(a, b Assignment) bool { return a.Addr == b.Addr && a.Nym.Equal(b.Nym) && a.NymR.Equal(b.NymR) }
	for n := 0; n < 6; n++ {
		var l []Assignment
		for i := 0; i < n; i++ {
			_, p := zvlib.Key(nil)
			_, q := zvlib.Key(nil)
			l = append(l, Assignment{NymR: p, Addr: []string{"10.0.0.1:80", "", "[::1]:443", "bridge", "ü"}[i%5], Nym: q})
		}
		if zvlib.Stops(func() {
			r := DecodeAssignmentList(EncodeAssignmentList(l))
			if len(r) != n {
				fail("%d assignments become %d", n, len(r))
				return
			}
			for i := range r {
				if !same(r[i], l[i]) {
					fail("assignment %d of %d is not restored", i, n)
				}
			}
			for i := range l {
				if !same(*DecodeAssignment(EncodeAssignment(&l[i])), l[i]) {
					fail("an assignment is not restored")
				}
			}
		}) {
			fail("encoding or decoding %d assignments stops", n)
		}
	}
}
