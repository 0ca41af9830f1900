package fujiokam

import (
	"math/big"
	"testing"

	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

func zvBig(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }
func zvBase() *FujiOkamBase {
	p := zvBig("10144520506260765859590195611018097205184583127451838466618919711194501404004249961234533515955706013552414491571832368970922764307902791563111780207925203")
	q := zvBig("12265581865684958141271858147612258425011930850854904856269546242858680058794420653650903858565435607057761987520132472458241026949490304080598491390213843")
	n := new(big.Int).Mul(p, q)
	r := new(big.Int).Mul(new(big.Int).Exp(big.NewInt(2), big.NewInt(80), nil), n)
	b := &FujiOkamBase{Suite: nist.NewAES128SHA256QR512(), N: n, RandomRadius: r, RandomDiameter: new(big.Int).Mul(r, big.NewInt(2))}
	b.P = new(big.Int).Rsh(p, 1)
	b.Q = new(big.Int).Rsh(q, 1)
	h := random.Int(n, random.Stream)
	h.Mul(h, h).Mod(h, n)
	b.H1 = &Point{V: *h, M: n}
	gen := func() (*Point, *big.Int) {
		a := random.Int(b.RandomDiameter, random.Stream)
		a.Sub(a, b.RandomRadius)
		return &Point{V: *new(big.Int).Exp(h, a, n), M: n}, a
	}
	b.G1, b.alpha1 = gen()
	b.G2, b.alpha2 = gen()
	b.G3, b.alpha3 = gen()
	b.G4, b.alpha4 = gen()
	b.G5, b.alpha5 = gen()
	b.G6, b.alpha6 = gen()
	return b
}

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	defer func() {
		if e := recover(); e != nil {
			fail("panic in the honest run: %v", e)
		}
	}()
	b := zvBase()
	sec, pub := b.GenerateAllGnHonestyProof()
	sec2, pub2 := b.GenerateAllGnHonestyProof()
	if len(sec) != 480 || len(pub) != 480 {
		fail("proof has %d secrets and %d publics", len(sec), len(pub))
		return
	}
	seen := map[string]int{}
	for i, s := range append(append([]*big.Int{}, sec...), sec2...) {
		if j, ok := seen[s.String()]; ok {
			fail("secret %d repeats secret %d", i, j)
		}
		seen[s.String()] = i
	}
	for i := range pub {
		if new(big.Int).Exp(&b.H1.V, sec[i], b.N).Cmp(pub[i]) != 0 {
			fail("public value %d is not h1 to the secret", i)
		}
	}
	_ = pub2
	all := func(v bool) []bool {
		r := make([]bool, 480)
		for i := range r {
			r[i] = v
		}
		return r
	}
	one := func(k int) []bool { r := all(false); r[k] = true; return r }
	c1, c2 := b.ChallengeAllGnHonesty(), b.ChallengeAllGnHonesty()
	if len(c1) != 480 {
		fail("challenge has %d bits", len(c1))
		return
	}
	for k := 0; k < 6; k++ {
		ones, same := 0, true
		for i := 80 * k; i < 80*k+80; i++ {
			if c1[i] {
				ones++
			}
			if c1[i] != c2[i] {
				same = false
			}
		}
		if ones < 8 || ones > 72 {
			fail("challenge block %d has %d ones of 80", k, ones)
		}
		if same {
			fail("challenge block %d repeats", k)
		}
	}
	ever, never := make([]bool, 480), make([]bool, 480)
	first := map[string]bool{}
	for i := 0; i < 64; i++ {
		c := b.ChallengeAllGnHonesty()
		w := ""
		for j, v := range c {
			ever[j] = ever[j] || v
			never[j] = never[j] || !v
			if v {
				w += "1"
			} else {
				w += "0"
			}
		}
		for k := 0; k < 6; k++ {
			blk := w[80*k : 80*k+80]
			if first[blk] {
				fail("challenge block %d repeats an earlier block", k)
				break
			}
			first[blk] = true
			if blk[:40] == blk[40:] {
				fail("challenge block %d repeats its first half", k)
			}
		}
	}
	for j := range ever {
		if !ever[j] || !never[j] {
			fail("challenge bit %d is the same in 64 challenges", j)
			break
		}
	}
	for n, bits := range [][]bool{c1, c2, all(true), all(false), one(0), one(79), one(80), one(479)} {
		if r := b.CheckAllGnHonesty(b.AnswerAllGnHonesty(bits, sec, pub), bits, pub); r != 0 {
			fail("honest answers to challenge %d rejected at generator %d", n, r)
		}
	}
}
