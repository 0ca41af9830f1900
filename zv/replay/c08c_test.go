package client

import (
	"math/big"
	"os"
	"testing"
	"zRep/primitive/fujiokam"
	"zRep/util"

	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

func zvBig(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }
func zvBase() (*fujiokam.FujiOkamBase, []*big.Int) {
	p := zvBig("10144520506260765859590195611018097205184583127451838466618919711194501404004249961234533515955706013552414491571832368970922764307902791563111780207925203")
	q := zvBig("12265581865684958141271858147612258425011930850854904856269546242858680058794420653650903858565435607057761987520132472458241026949490304080598491390213843")
	n := new(big.Int).Mul(p, q)
	r := new(big.Int).Mul(new(big.Int).Exp(big.NewInt(2), big.NewInt(80), nil), n)
	b := &fujiokam.FujiOkamBase{Suite: nist.NewAES128SHA256QR512(), N: n, RandomRadius: r, RandomDiameter: new(big.Int).Mul(r, big.NewInt(2))}
	alphas := []*big.Int{}
	b.P = new(big.Int).Rsh(p, 1)
	b.Q = new(big.Int).Rsh(q, 1)
	h := random.Int(n, random.Stream)
	h.Mul(h, h).Mod(h, n)
	b.H1 = &fujiokam.Point{V: *h, M: n}
	gen := func() (*fujiokam.Point, *big.Int) {
		a := random.Int(b.RandomDiameter, random.Stream)
		a.Sub(a, b.RandomRadius)
		alphas = append(alphas, a)
		return &fujiokam.Point{V: *new(big.Int).Exp(h, a, n), M: n}, a
	}
	b.G1, _ = gen()
	b.G2, _ = gen()
	b.G3, _ = gen()
	b.G4, _ = gen()
	b.G5, _ = gen()
	b.G6, _ = gen()
	return b, alphas
}

func TestZV(t *testing.T) {
	os.Stdout, _ = os.Open(os.DevNull)
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	b, alphas := zvBase()
	sec, pub := b.GenerateAllGnHonestyProof()
	bits := b.ChallengeAllGnHonesty()
	ans := make([]*big.Int, 480)
	for i := range ans {
		ans[i] = new(big.Int).Set(sec[i])
		if bits[i] {
			ans[i].Add(ans[i], alphas[i/80])
		}
	}
	run := func(a []*big.Int) (stopped bool) {
		defer func() {
			if recover() != nil {
				stopped = true
			}
		}()
		cl := &DissentClient{Suite: b.Suite, FujiOkamBase: b, AllGnHonestyProofPublic: pub, AllGnHonestyChallenge: bits}
		handleGnHonestyAnswer(map[string]interface{}{"honesty_ans": util.ProtobufEncodeBigIntList(a)}, cl)
		return false
	}
	for k := 0; k < 6; k++ {
		for _, j := range []int{79 - 13*k} {
			a2 := append([]*big.Int{}, ans...)
			a2[80*k+j] = new(big.Int).Add(ans[80*k+j], big.NewInt(1))
			if !run(a2) {
				fail("client went on after a wrong answer %d", 80*k+j)
			}
		}
	}
}
