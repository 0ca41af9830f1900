package server

import (
	"testing"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	mul := func(p abstract.Point, s abstract.Secret) abstract.Point { return suite.Point().Mul(p, s) }
	next, prev := zvlib.NewPeer(), zvlib.NewPeer()
	defer next.Close()
	defer prev.Close()
	point := func(b interface{}) abstract.Point { return util.DecodePoint(suite, b.([]byte)) }
	var relay map[string]interface{}
	for _, n := range []int{0, 1, 2, 3, 6, 7} {
		for _, first := range []bool{true, false} {
			x, pub := zvlib.Key(nil)
			rk := zvlib.Rnd()
			anonServer = &AnonServer{Suite: suite, PrivateKey: x, PublicKey: pub, Roundkey: rk, LocalAddr: zvlib.Local(), NextHop: next.Addr, PreviousHop: prev.Addr,
				KeyMap: map[string]abstract.Point{}}
			_, GT := zvlib.Key(nil)
			h, g := zvlib.Rnd(), mul(nil, zvlib.Rnd())
			HT := mul(GT, h)
			var keys, vals []abstract.Point
			var logs []abstract.Secret
			for i := 0; i < n; i++ {
				_, k := zvlib.Key(nil)
				v := zvlib.Rnd()
				if i%3 == 2 {
					v = logs[0] // equal commitments of different participants
				}
				keys, vals, logs = append(keys, k), append(vals, mul(GT, v)), append(logs, v)
			}
			pm := map[string]interface{}{"keys": util.ProtobufEncodePointList(keys), "vals": util.ProtobufEncodePointList(vals), "GT": util.EncodePoint(GT), "HT": util.EncodePoint(HT)}
			base := mul(nil, rk)
			if !first {
				pm["g"] = util.EncodePoint(g)
				base = mul(g, rk)
				if n > 1 { // relayed by another server
					pm = relay
					keys, vals = util.ProtobufDecodePointList(pm["keys"].([]byte)), util.ProtobufDecodePointList(pm["vals"].([]byte))
					GT, HT, g = point(pm["GT"]), point(pm["HT"]), point(pm["g"])
					base = mul(g, rk)
					logs = relay["zv-logs"].([]abstract.Secret)
					h = relay["zv-h"].(abstract.Secret)
				}
			}
			if _, shuffled := pm["proof"]; shuffled {
				for _, k := range []string{"proof", "xbar", "ybar", "prev_keys", "prev_vals", "public_key"} {
					bad := map[string]interface{}{}
					for a, b := range pm {
						bad[a] = b
					}
					_, o := zvlib.Key(nil)
					switch b := append([]byte{}, pm[k].([]byte)...); k {
					case "proof":
						b[len(b)/2] ^= 1
						bad[k] = b
					case "public_key":
						bad[k] = util.EncodePoint(o)
					default:
						l := util.ProtobufDecodePointList(b)
						l[len(l)-1] = o
						bad[k] = util.ProtobufEncodePointList(l)
					}
					st := *anonServer
					if !zvlib.Stops(func() { handleAnnouncement(bad) }) {
						fail("n=%d: a shuffle with another %s is accepted", n, k)
						next.Next()
					}
					*anonServer = st
					anonServer.KeyMap = map[string]abstract.Point{}
				}
			}
			if zvlib.Stops(func() { handleAnnouncement(pm) }) {
				fail("n=%d: stopped", n)
				continue
			}
			e := next.Next()
			if e == nil || e.EventType != proto.ANNOUNCEMENT {
				fail("n=%d: nothing announced to the next server", n)
				continue
			}
			GT2, HT2 := point(e.Params["GT"]), point(e.Params["HT"])
			if !HT2.Equal(mul(GT2, h)) || GT2.Equal(GT) {
				fail("n=%d: the bases are not raised to one fresh exponent", n)
			}
			if !point(e.Params["g"]).Equal(base) {
				fail("n=%d: wrong base", n)
			}
			K, V := util.ProtobufDecodePointList(e.Params["keys"].([]byte)), util.ProtobufDecodePointList(e.Params["vals"].([]byte))
			if len(K) != n || len(V) != n || len(anonServer.KeyMap) != n {
				fail("n=%d: %d keys, %d commitments, %d remembered", n, len(K), len(V), len(anonServer.KeyMap))
				continue
			}
			perm := make([]abstract.Secret, n)
			for i := range keys {
				k, found := mul(keys[i], rk), 0
				for j := range K {
					if K[j].Equal(k) {
						found++
						perm[j] = logs[i]
						if !V[j].Equal(mul(GT2, logs[i])) {
							fail("n=%d: participant %d lost its commitment", n, i)
						}
					}
				}
				if found != 1 {
					fail("n=%d: participant %d occurs %d times", n, i, found)
				}
				if o := anonServer.KeyMap[k.String()]; o == nil || !o.Equal(keys[i]) {
					fail("n=%d: participant %d is not remembered", n, i)
				}
			}
			if n <= 1 {
				continue
			}
			if !point(e.Params["public_key"]).Equal(pub) || e.Params["shuffled"] == nil {
				fail("n=%d: shuffle without key", n)
			}
			pk, pv := util.ProtobufDecodePointList(e.Params["prev_keys"].([]byte)), util.ProtobufDecodePointList(e.Params["prev_vals"].([]byte))
			xb, yb := util.ProtobufDecodePointList(e.Params["xbar"].([]byte)), util.ProtobufDecodePointList(e.Params["ybar"].([]byte))
			for i := range K {
				d := suite.Point().Sub(xb[i], pk[i])
				if !suite.Point().Sub(yb[i], mul(d, x)).Equal(K[i]) || !pv[i].Equal(mul(keys[i], rk)) {
					fail("n=%d: the shuffle is about other lists (%d)", n, i)
				}
			}
			if zvlib.Stops(func() { verifyNeffShuffle(e.Params) }) {
				fail("n=%d: the shuffle proof is not accepted", n)
			}
			relay = e.Params
			relay["zv-logs"], relay["zv-h"] = perm, h
		}
	}
}
