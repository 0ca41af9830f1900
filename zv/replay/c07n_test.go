package coordinator

import (
	"math/big"
	"os"
	"testing"
	"zRep/primitive/fujiokam"
	"zRep/proto"
	"zRep/util"
	"zRep/zvlib"
)

func TestZV(t *testing.T) {
	os.Stdout, _ = os.Open(os.DevNull)
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	dir, _ := os.MkdirTemp("", "zvconf")
	defer os.RemoveAll(dir)
	os.Chdir(dir)
	os.Mkdir("config", 0700)
	os.WriteFile("config/local.properties", []byte("local_port = 12345\n"), 0600)
	os.WriteFile("config/conn.properties", []byte("local_port = 12345\n"), 0600)
	if zvlib.Stops(initCoordinator) {
		fail("the coordinator stops while it starts")
		return
	}
	b := anonCoordinator.FujiOkamBase
	sec, pub := anonCoordinator.AllGnHonestyProofSecret, anonCoordinator.AllGnHonestyProofPublic
	if b == nil || len(sec) != 480 || len(pub) != 480 {
		fail("parameters not set")
		return
	}
	for i := range sec {
		if new(big.Int).Exp(&b.H1.V, sec[i], b.N).Cmp(pub[i]) != 0 {
			fail("public value %d does not belong to its secret", i)
			break
		}
	}
	if !anonCoordinator.Suite.Point().Mul(nil, anonCoordinator.PrivateKey).Equal(anonCoordinator.PublicKey) {
		fail("the keys do not belong together")
	}
	p := zvlib.NewPeer()
	defer p.Close()
	anonCoordinator.LocalAddr = zvlib.Local()
	chk := fujiokam.CreateMinimumBase(b.Suite, b.N)
	chk.H1, chk.G1, chk.G2, chk.G3, chk.G4, chk.G5, chk.G6 = b.H1, b.G1, b.G2, b.G3, b.G4, b.G5, b.G6
	for run := 0; run < 4; run++ {
		bits := b.ChallengeAllGnHonesty()
		if run == 0 {
			for i := range bits {
				bits[i] = true
			}
		}
		if zvlib.Stops(func() { handleGnHonestyChallenge(map[string]interface{}{"honesty_chal": util.ProtobufEncodeBoolList(bits)}, p.Addr) }) {
			fail("the coordinator stops on a challenge")
			return
		}
		e := p.Next()
		if e == nil || e.EventType != proto.GN_HONESTY_ANSWER {
			fail("no answer")
			continue
		}
		ab, ok := e.Params["honesty_ans"].([]byte)
		if !ok {
			fail("no answers")
			continue
		}
		ans := util.ProtobufDecodeBigIntList(ab)
		if len(ans) != 480 {
			fail("%d answers", len(ans))
			continue
		}
		if r := chk.CheckAllGnHonesty(ans, bits, pub); r != 0 {
			fail("an honest answer is rejected at generator %d", r)
		}
	}
}
