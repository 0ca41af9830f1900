package server

import (
	"testing"
	"zRep/util"
	"zRep/util/shuffle"
	"zRep/zvlib"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
)

func TestZV(t *testing.T) {
	for n := 2; n < 5; n++ {
		zvTable(t, n)
	}
}
func zvTable(t *testing.T, n int) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	anonServer = &AnonServer{Suite: suite}
	_, pub := zvlib.Key(nil)
	_, other := zvlib.Key(nil)
	list := func() (l []abstract.Point) {
		for i := 0; i < n; i++ {
			_, k := zvlib.Key(nil)
			l = append(l, k)
		}
		return
	}
	X, Y := list(), list()
	rand := suite.Cipher(abstract.RandomKey)
	Xb, Yb, prover, _, _ := shuffle.Shuffle(suite, nil, pub, X, Y, rand)
	prf, err := proof.HashProve(suite, "PairShuffle", rand, prover)
	if err != nil {
		fail("no proof: %v", err)
		return
	}
	enc := util.ProtobufEncodePointList
	with := func(kv ...interface{}) map[string]interface{} {
		m := map[string]interface{}{"shuffled": true, "xbar": enc(Xb), "ybar": enc(Yb), "prev_keys": enc(X), "prev_vals": enc(Y), "public_key": zvlib.Bytes(pub), "proof": prf}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
		return m
	}
	if zvlib.Stops(func() { verifyNeffShuffle(with()) }) {
		fail("an honest shuffle is refused")
	}
	if zvlib.Stops(func() { verifyNeffShuffle(map[string]interface{}{}) }) {
		fail("an unshuffled list is refused")
	}
	refused := func(what string, kv ...interface{}) {
		if !zvlib.Stops(func() { verifyNeffShuffle(with(kv...)) }) {
			fail("accepted although %s", what)
		}
	}
	swap := func(l []abstract.Point) []abstract.Point { return append([]abstract.Point{l[1], l[0]}, l[2:]...) }
	repl := func(l []abstract.Point, i int) []abstract.Point {
		m := append([]abstract.Point{}, l...)
		m[i] = other
		return m
	}
	bad := append([]byte{}, prf...)
	bad[len(bad)-70] ^= 1
	refused("the proof is altered", "proof", bad)
	refused("there is no proof", "proof", []byte{})
	refused("the proof is cut", "proof", prf[:len(prf)-1])
	refused("the key is another one", "public_key", zvlib.Bytes(other))
	for i := 0; i < n; i++ {
		refused("an output is another element", "ybar", enc(repl(Yb, i)))
		refused("an output is another element", "xbar", enc(repl(Xb, i)))
		refused("an input is another element", "prev_vals", enc(repl(Y, i)))
		refused("an input is another element", "prev_keys", enc(repl(X, i)))
	}
	refused("the second outputs are in another order", "ybar", enc(swap(Yb)))
	refused("the first outputs are in another order", "xbar", enc(swap(Xb)))
	refused("the lists are exchanged", "xbar", enc(Yb), "ybar", enc(Xb))
	refused("an output is missing", "xbar", enc(Xb[:n-1]), "ybar", enc(Yb[:n-1]))
	refused("an input is missing", "prev_keys", enc(X[:n-1]), "prev_vals", enc(Y[:n-1]))
	more := func(l []abstract.Point, p abstract.Point) []abstract.Point { return append(append([]abstract.Point{}, l...), p) }
	refused("an output is added", "xbar", enc(more(Xb, other)), "ybar", enc(more(Yb, other)))
	refused("an output is there twice", "xbar", enc(more(Xb, Xb[0])), "ybar", enc(more(Yb, Yb[0])))
	refused("an input is added", "prev_keys", enc(more(X, other)), "prev_vals", enc(more(Y, other)))
	refused("the first outputs are more than the second", "xbar", enc(more(Xb, other)))
	refused("the second outputs are more than the first", "ybar", enc(more(Yb, other)))
}
