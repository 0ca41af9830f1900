package lrs

import (
	"math/big"
	"testing"
	"zRep/util"
	"zRep/zvlib"
)

// components of ring signatures by every position: nothing repeats, everything lies below the order, and what the signer's
// equation leaves as nonce is as unrelated as the rest
func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	g := zvlib.Suite().Point().Base()
	base := CreateBase(util.PointToBigInt(g))
	half := new(big.Int).Rsh(base.Q, 1)
	for n := 1; n < 6; n++ {
		var xb, yb []*big.Int
		for i := 0; i < n; i++ {
			x, y := zvlib.Key(g)
			xb, yb = append(xb, new(big.Int).Set(util.SecretToBigInt(x))), append(yb, util.PointToBigInt(y))
		}
		for _, m := range []string{"", "hello"} {
			for pi := 0; pi < n; pi++ {
				seen := map[string]string{}
				high := map[string]int{}
				const rounds = 40
				for round := 0; round < rounds; round++ {
					var s *Signature
					if zvlib.Stops(func() { s = base.SignHelper([]byte(m), n, pi, xb[pi], yb) }) || s == nil || len(s.S) != n || len(s.C) != n {
						fail("no signature (ring of %d, position %d)", n, pi)
						return
					}
					if !base.VerifyHelper([]byte(m), n, pi, s, yb) {
						fail("a signature by position %d does not verify", pi)
						return
					}
					note := func(what string, i int, v *big.Int) {
						if v == nil || v.Sign() < 0 || v.Cmp(base.Q) >= 0 {
							fail("%s %d of a signature by position %d is not a residue", what, i, pi)
							return
						}
						k := v.String()
						if o, ok := seen[k]; ok {
							fail("%s %d of a signature by position %d repeats %s", what, i, pi, o)
						}
						seen[k] = what
						if v.Cmp(half) > 0 {
							high[what+string(rune('0'+i))]++
						}
					}
					for i := 0; i < n; i++ {
						note("response", i, s.S[i])
						if i != pi || n > 1 {
							note("challenge", i, s.C[i])
						}
					}
					r := new(big.Int).Mul(s.C[pi], xb[pi])
					note("nonce", pi, r.Add(r, s.S[pi]).Mod(r, base.Q))
					if t.Failed() {
						return
					}
				}
				for i := 0; i < n; i++ {
					for _, w := range []string{"response", "challenge", "nonce"} {
						k := w + string(rune('0'+i))
						if w == "nonce" && i != pi || n == 1 {
							continue
						}
						if high[k] == 0 || high[k] == rounds {
							fail("%s %d of signatures by position %d is not spread over the residues", w, i, pi)
						}
					}
				}
			}
		}
	}
}
