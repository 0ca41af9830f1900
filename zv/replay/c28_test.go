package server

import (
	"testing"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	mul := func(p abstract.Point, s abstract.Secret) abstract.Point { return suite.Point().Mul(p, s) }
	next, prev := zvlib.NewPeer(), zvlib.NewPeer()
	defer next.Close()
	defer prev.Close()
	point := func(b interface{}) abstract.Point { return util.DecodePoint(suite, b.([]byte)) }
	for _, n := range []int{0, 1, 2, 3, 6, 7} {
		var relay map[string]interface{}
		for step := 0; step < 3; step++ {
			x, pub := zvlib.Key(nil)
			rk := zvlib.Rnd()
			anonServer = &AnonServer{Suite: suite, PrivateKey: x, PublicKey: pub, Roundkey: rk, LocalAddr: zvlib.Local(), NextHop: next.Addr, PreviousHop: prev.Addr,
				KeyMap: map[string]abstract.Point{}}
			_, GT := zvlib.Key(nil)
			h := zvlib.Rnd()
			HT := mul(GT, h)
			var orig, keys, vals []abstract.Point
			var logs []abstract.Secret
			var pm map[string]interface{}
			if step == 0 || n <= 1 {
				for i := 0; i < n; i++ {
					_, k := zvlib.Key(nil)
					v := zvlib.Rnd()
					if i%3 == 2 {
						v = logs[0]
					}
					keys, vals, logs = append(keys, k), append(vals, mul(GT, v)), append(logs, v)
				}
				pm = map[string]interface{}{"keys": util.ProtobufEncodePointList(keys), "vals": util.ProtobufEncodePointList(vals), "GT": util.EncodePoint(GT), "HT": util.EncodePoint(HT), "is_start": true}
			} else {
				pm = relay
				keys, vals = util.ProtobufDecodePointList(pm["keys"].([]byte)), util.ProtobufDecodePointList(pm["vals"].([]byte))
				GT, HT = point(pm["GT"]), point(pm["HT"])
				logs, h = pm["zv-logs"].([]abstract.Secret), pm["zv-h"].(abstract.Secret)
			}
			for i := 0; i < n; i++ {
				_, o := zvlib.Key(nil)
				orig = append(orig, o)
				anonServer.KeyMap[keys[i].String()] = o
			}
			_, o := zvlib.Key(nil)
			anonServer.KeyMap[o.String()] = o
			if zvlib.Stops(func() { handleRoundEnd(pm) }) {
				fail("n=%d: stopped", n)
				continue
			}
			e := prev.Next()
			if e == nil || e.EventType != proto.ROUND_END {
				fail("n=%d: nothing sent to the previous server", n)
				continue
			}
			GT2, HT2 := point(e.Params["GT"]), point(e.Params["HT"])
			if !HT2.Equal(mul(GT2, h)) || GT2.Equal(GT) {
				fail("n=%d: the bases are not raised to one fresh exponent", n)
			}
			K, V := util.ProtobufDecodePointList(e.Params["keys"].([]byte)), util.ProtobufDecodePointList(e.Params["vals"].([]byte))
			if len(K) != n || len(V) != n {
				fail("n=%d: %d keys, %d commitments", n, len(K), len(V))
				continue
			}
			if len(anonServer.KeyMap) != 0 || anonServer.Roundkey.Equal(rk) {
				fail("n=%d: round key or mapping kept", n)
			}
			perm := make([]abstract.Secret, n)
			for i := range orig {
				found := 0
				for j := range K {
					if K[j].Equal(orig[i]) {
						found++
						perm[j] = logs[i]
						if !V[j].Equal(mul(GT2, logs[i])) {
							fail("n=%d: participant %d lost its commitment", n, i)
						}
					}
				}
				if found != 1 {
					fail("n=%d: participant %d occurs %d times", n, i, found)
				}
			}
			if n <= 1 {
				continue
			}
			pk, pv := util.ProtobufDecodePointList(e.Params["prev_keys"].([]byte)), util.ProtobufDecodePointList(e.Params["prev_vals"].([]byte))
			xb, yb := util.ProtobufDecodePointList(e.Params["xbar"].([]byte)), util.ProtobufDecodePointList(e.Params["ybar"].([]byte))
			for i := range K {
				d := suite.Point().Sub(xb[i], pk[i])
				if !suite.Point().Sub(yb[i], mul(d, x)).Equal(K[i]) || !pv[i].Equal(orig[i]) {
					fail("n=%d: the shuffle is about other lists (%d)", n, i)
				}
			}
			if !point(e.Params["public_key"]).Equal(pub) || e.Params["shuffled"] == nil || zvlib.Stops(func() { verifyNeffShuffle(e.Params) }) {
				fail("n=%d: the shuffle proof is not accepted", n)
			}
			relay = e.Params
			relay["zv-logs"], relay["zv-h"] = perm, h
		}
	}
}
