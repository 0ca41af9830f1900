package client

import (
	"testing"
	"zRep/primitive/pedersen"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	for round := 0; round < 9; round++ {
		x, pub := zvlib.Key(nil)
		cl := &DissentClient{Suite: suite, PrivateKey: x, PublicKey: pub, Reputation: 5, PedersenBase: pedersen.CreateBaseFromSuite(suite), OnetimePseudoNym: suite.Point()}
		cb := pedersen.CreateBaseFromSuite(suite)
		com, r := cb.Commit(zvlib.Sec(5))
		g := suite.Point().Mul(nil, zvlib.Rnd())
		step := func(what string, f func()) {
			if zvlib.Stops(f) {
				fail("%s: the client stops", what)
			}
		}
		step("first randomness", func() {
			handleInitPedersenR(map[string]interface{}{"r": zvlib.SBytes(r), "g": zvlib.Bytes(g)}, cl)
		})
		if cl.R == nil || !cl.R.Equal(r) || cl.OnetimePseudoNym == nil || !cl.OnetimePseudoNym.Equal(suite.Point().Mul(g, x)) {
			fail("first randomness or pseudonym not kept")
			continue
		}
		rep, bad := 5, false
		place := func(n, at int, mine abstract.Point) []abstract.Point {
			l := make([]abstract.Point, n)
			for i := range l {
				if i == at {
					l[i] = mine
				} else {
					_, l[i] = zvlib.Key(nil)
				}
			}
			return l
		}
		for k := 0; k < 4 && !bad; k++ {
			// announcement: everything is raised to the same power
			e := zvlib.Rnd()
			cb.GT, cb.HT = suite.Point().Mul(cb.GT, e), suite.Point().Mul(cb.HT, e)
			com = suite.Point().Mul(com, e)
			ng := suite.Point().Mul(nil, zvlib.Rnd())
			n := []int{1, 2, 3, 4, 5, 17, 1, 2}[(round+3*k)%8]
			at := (round*3 + 7*k + 8) % n
			nym := suite.Point().Mul(ng, x)
			step("announcement", func() {
				handleAnnouncementFinalize(map[string]interface{}{"g": zvlib.Bytes(ng), "keys": util.ProtobufEncodePointList(place(n, at, nym)),
					"vals": util.ProtobufEncodePointList(place(n, at, com)), "GT": zvlib.Bytes(cb.GT), "HT": zvlib.Bytes(cb.HT)}, cl)
			})
			check := func(what string) {
				if bad {
					return
				}
				if cl.PCommr == nil || !cl.PCommr.Equal(com) {
					fail("%s: not the listed commitment (n=%d at=%d)", what, n, at)
					bad = true
				} else if cl.Reputation != rep {
					fail("%s: reputation %d, expected %d", what, cl.Reputation, rep)
					bad = true
				} else if !cl.OnetimePseudoNym.Equal(nym) {
					fail("%s: wrong pseudonym", what)
					bad = true
				} else if !cl.PCommr.Equal(cl.PedersenBase.CommitWithR(zvlib.Sec(rep), cl.R)) {
					fail("%s: the commitment does not open to reputation %d", what, rep)
					bad = true
				}
			}
			check("announcement")
			if k == 1 { // the same generator and pseudonym once more, with another table
				com = suite.Point().Add(com, cb.CommitWithR(zvlib.Sec(0), zvlib.Sec(1)))
				cl.R.Add(cl.R, zvlib.Sec(1))
				at = n - 1 - at
				step("second announcement", func() {
					handleAnnouncementFinalize(map[string]interface{}{"g": zvlib.Bytes(ng), "keys": util.ProtobufEncodePointList(place(n, at, nym)),
						"vals": util.ProtobufEncodePointList(place(n, at, com)), "GT": zvlib.Bytes(cb.GT), "HT": zvlib.Bytes(cb.HT)}, cl)
				})
				check("second announcement")
			}
			// round end
			score, listed := []int{0, 1, -1, 3, -4, 70000, -40000, 1 << 33, -9}[(3*round+k*k)%9], k%3 != 2
			rs := make([]abstract.Secret, n)
			for i := range rs {
				rs[i] = zvlib.Rnd()
			}
			if !listed {
				score = 0
			}
			com = suite.Point().Add(com, cb.CommitWithR(zvlib.Sec(score), rs[at]))
			randomness := func() {
				step("randomness", func() {
					handleBroadcastPedersenRDiff(map[string]interface{}{"keys": util.ProtobufEncodePointList(place(n, at, nym)), "rDiffs": util.ProtobufEncodeSecretList(rs)}, cl)
				})
			}
			if (round+k)%2 == 0 {
				randomness()
			}
			ds := make([]int, n)
			for i := range ds {
				ds[i] = 10 + i
			}
			ds[at] = score
			ks := place(n, at, nym)
			if !listed {
				ks = place(n, -1, nym)
			}
			step("round end", func() {
				handleRoundEnd(map[string]interface{}{"keys": util.ProtobufEncodePointList(ks), "diffs": util.EncodeIntArray(ds)}, cl)
			})
			if (round+k)%2 == 1 {
				randomness()
			}
			rep += score
			if cl.Reputation != rep {
				fail("round end: reputation %d, expected %d", cl.Reputation, rep)
				bad = true
			}
			if k%2 == 1 { // a round without this client
				r0 := zvlib.SBytes(cl.R)
				step("randomness of others", func() {
					handleBroadcastPedersenRDiff(map[string]interface{}{"keys": util.ProtobufEncodePointList(place(n, -1, nym)), "rDiffs": util.ProtobufEncodeSecretList(rs)}, cl)
				})
				step("round end of others", func() {
					handleRoundEnd(map[string]interface{}{"keys": util.ProtobufEncodePointList(place(n, -1, nym)), "diffs": util.EncodeIntArray(ds)}, cl)
				})
				if string(zvlib.SBytes(cl.R)) != string(r0) || cl.Reputation != rep {
					fail("a round of others changes the client")
					bad = true
				}
			}
		}
	}
	// whatever the client is doing, and however often
	for st := CONFIGURATION; st <= VOTE; st++ {
		for n := 1; n < 4; n++ {
			x, _ := zvlib.Key(nil)
			g := suite.Point().Mul(nil, zvlib.Rnd())
			nym := suite.Point().Mul(g, x)
			cl := &DissentClient{Suite: suite, PrivateKey: x, Status: st, Reputation: 5, R: zvlib.Rnd(), G: g, OnetimePseudoNym: nym, PedersenBase: pedersen.CreateBaseFromSuite(suite)}
			ks := make([]abstract.Point, n)
			rs := make([]abstract.Secret, n)
			ds := make([]int, n)
			for i := range ks {
				_, ks[i] = zvlib.Key(nil)
				rs[i], ds[i] = zvlib.Rnd(), 100+i
			}
			ks[n-1], ds[n-1] = nym, []int{3, -8, 0, 1}[st]
			want, wr := 5, suite.Secret().Add(suite.Secret().Zero(), cl.R)
			for k := 0; k < 2; k++ {
				cl.Status = st
				if zvlib.Stops(func() {
					handleBroadcastPedersenRDiff(map[string]interface{}{"keys": util.ProtobufEncodePointList(ks), "rDiffs": util.ProtobufEncodeSecretList(rs)}, cl)
				}) {
					fail("randomness: the client stops")
				}
				cl.Status = st
				if zvlib.Stops(func() {
					handleRoundEnd(map[string]interface{}{"keys": util.ProtobufEncodePointList(ks), "diffs": util.EncodeIntArray(ds)}, cl)
				}) {
					fail("round end: the client stops")
				}
				want += ds[n-1]
				wr.Add(wr, rs[n-1])
				if cl.Reputation != want {
					fail("status %d: reputation %d, expected %d", st, cl.Reputation, want)
				}
				if !cl.R.Equal(wr) {
					fail("status %d: the randomness is not updated", st)
				}
			}
		}
	}
}
