package client

import (
	"math/big"
	"os"
	"testing"
	"zRep/primitive/fujiokam"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"
)

func TestZV(t *testing.T) {
	os.Stdout, _ = os.Open(os.DevNull)
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := zvlib.Suite()
	fb := zvlib.FO()
	_, pub := zvlib.Key(nil)
	prf := []*big.Int{}
	for i := 0; i < 480; i++ {
		prf = append(prf, new(big.Int).Exp(&fb.H1.V, big.NewInt(int64(i*i+1)), fb.N))
	}
	co := zvlib.NewPeer()
	defer co.Close()
	seen := map[string]bool{}
	for run := 0; run < 8; run++ {
		if run > 1 { // parameters are opaque numbers for the client
			k := *fb
			fb = &k
			for i, g := range []**fujiokam.Point{&fb.G1, &fb.G2, &fb.G3, &fb.G4, &fb.G5, &fb.G6, &fb.H1} {
				v := new(big.Int).Exp(&(*g).V, big.NewInt(int64(2*i+3*run)), fb.N)
				if run > 5 {
					v.SetInt64(int64(6*(i+1) + run))
				}
				*g = &fujiokam.Point{V: *v, M: fb.N}
			}
		}
		c := &DissentClient{Suite: suite, LocalAddr: zvlib.Local(), CoordinatorAddr: co.Addr, ControllerPublicKey: suite.Point()}
		if zvlib.Stops(func() {
			handleRegisterConfirmation(map[string]interface{}{"honesty_prf": util.ProtobufEncodeBigIntList(prf), "public_key": zvlib.Bytes(pub), "n": fb.N.Bytes(), "g1": fb.G1.ToBinary(), "g2": fb.G2.ToBinary(),
				"g3": fb.G3.ToBinary(), "g4": fb.G4.ToBinary(), "g5": fb.G5.ToBinary(), "g6": fb.G6.ToBinary(), "h1": fb.H1.ToBinary()}, c)
		}) {
			fail("the client stops on its confirmation")
			return
		}
		b := c.FujiOkamBase
		if b == nil || b.N.Cmp(fb.N) != 0 || !b.G1.Equal(fb.G1) || !b.G2.Equal(fb.G2) || !b.G3.Equal(fb.G3) || !b.G4.Equal(fb.G4) || !b.G5.Equal(fb.G5) || !b.G6.Equal(fb.G6) || !b.H1.Equal(fb.H1) {
			fail("parameters not kept")
		} else if b.RandomRadius.Cmp(fb.RandomRadius) != 0 || b.RandomDiameter.Cmp(fb.RandomDiameter) != 0 || b.G1.M.Cmp(fb.N) != 0 || b.H1.M.Cmp(fb.N) != 0 {
			fail("wrong randomness range or modulus")
		}
		if c.Status != CONNECTED || !c.ControllerPublicKey.Equal(pub) {
			fail("not connected or wrong key of the coordinator")
		}
		if len(c.AllGnHonestyProofPublic) != 480 {
			fail("%d public values kept", len(c.AllGnHonestyProofPublic))
		} else {
			for i := range prf {
				if c.AllGnHonestyProofPublic[i].Cmp(prf[i]) != 0 {
					fail("public value %d not kept", i)
					break
				}
			}
		}
		e := co.Next()
		if e == nil || e.EventType != proto.GN_HONESTY_CHALLENGE {
			fail("no challenge")
			continue
		}
		bits, ok := e.Params["honesty_chal"].([]byte)
		if !ok {
			fail("no challenge bits")
			continue
		}
		l := util.ProtobufDecodeBoolList(bits)
		if len(l) != 480 || len(c.AllGnHonestyChallenge) != 480 {
			fail("challenge of %d bits", len(l))
			continue
		}
		for i := range l {
			if l[i] != c.AllGnHonestyChallenge[i] {
				fail("the challenge that is sent is not the one that is kept")
				break
			}
		}
		for k := 0; k < 6; k++ {
			w := ""
			for _, v := range l[80*k : 80*k+80] {
				w += map[bool]string{true: "1", false: "0"}[v]
			}
			if seen[w] {
				fail("a block of the challenge repeats")
			}
			seen[w] = true
		}
	}
}
