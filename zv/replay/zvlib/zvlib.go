// Package zvlib: fixtures shared by the replay drivers. It is laid over the repository when a driver runs.
package zvlib

import (
	"bytes"
	"encoding/gob"
	"math/big"
	"net"
	"time"
	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/proto"
	"zRep/util"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

func Big(s string) *big.Int     { n, _ := new(big.Int).SetString(s, 10); return n }
func Suite() abstract.Suite     { return nist.NewAES128SHA256QR512() }
func Rnd() abstract.Secret      { return Suite().Secret().Pick(random.Stream) }
func Sec(n int) abstract.Secret { return Suite().Secret().SetInt64(int64(n)) }
func Bytes(p abstract.Point) []byte {
	b, e := p.MarshalBinary()
	if e != nil {
		panic(e)
	}
	return b
}
func SBytes(p abstract.Secret) []byte {
	b, e := p.MarshalBinary()
	if e != nil {
		panic(e)
	}
	return b
}

// Key: a fresh key pair under base g (nil: the suite's generator)
func Key(g abstract.Point) (abstract.Secret, abstract.Point) {
	x := Rnd()
	return x, Suite().Point().Mul(g, x)
}
func Verifies(pub abstract.Point, msg, sig []byte, g abstract.Point) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return util.ElGamalVerify(Suite(), msg, pub, sig, g) == nil
}
func Sign(x abstract.Secret, msg []byte, g abstract.Point) []byte {
	return util.ElGamalSign(Suite(), random.Stream, msg, x, g)
}

// FO: an integer-commitment base over fixed safe primes
func FO() *fujiokam.FujiOkamBase {
	p := Big("10144520506260765859590195611018097205184583127451838466618919711194501404004249961234533515955706013552414491571832368970922764307902791563111780207925203")
	q := Big("12265581865684958141271858147612258425011930850854904856269546242858680058794420653650903858565435607057761987520132472458241026949490304080598491390213843")
	n := new(big.Int).Mul(p, q)
	r := new(big.Int).Mul(new(big.Int).Exp(big.NewInt(2), big.NewInt(80), nil), n)
	b := &fujiokam.FujiOkamBase{Suite: nist.NewAES128SHA256QR512(), N: n, RandomRadius: r, RandomDiameter: new(big.Int).Mul(r, big.NewInt(2))}
	b.P = new(big.Int).Rsh(p, 1)
	b.Q = new(big.Int).Rsh(q, 1)
	h := random.Int(n, random.Stream)
	h.Mul(h, h).Mod(h, n)
	b.H1 = &fujiokam.Point{V: *h, M: n}
	gen := func() *fujiokam.Point {
		a := random.Int(b.RandomDiameter, random.Stream)
		a.Sub(a, b.RandomRadius)
		return &fujiokam.Point{V: *new(big.Int).Exp(h, a, n), M: n}
	}
	b.G1, b.G2, b.G3, b.G4, b.G5, b.G6 = gen(), gen(), gen(), gen(), gen(), gen()
	return b
}

// Proof: the parameters of a request for ind bridges by the holder of C(rep, R), all fields except nym and signature
func Proof(pb *pedersen.PedersenBase, fb *fujiokam.FujiOkamBase, rep int, R abstract.Secret, ind int) map[string]interface{} {
	PCommr := pb.CommitWithR(Sec(rep), R)
	PCommind, rind := pb.Commit(Sec(ind))
	PCommd := pb.Sub(PCommr, PCommind)
	d := big.NewInt(int64(rep - ind))
	FOCommd, rFO := fb.Commit(d)
	var nn *fujiokam.ARGnonneg
	if d.Sign() >= 0 {
		nn = fb.ProveNonneg(d, FOCommd, rFO)
	} else { // there is no such argument: use one for another value
		d2 := new(big.Int).Neg(d)
		F2, r2 := fb.Commit(d2)
		nn = fb.ProveNonneg(d2, F2, r2)
	}
	rd := Suite().Secret().Sub(R, rind)
	eq := pedersen_fujiokam.ProveEqual(pb, fb, Sec(rep-ind), PCommd, rd, FOCommd, rFO)
	return map[string]interface{}{
		"ind": ind, "FOCommd": FOCommd.ToBinary(), "PCommd": Bytes(PCommd), "PCommind": Bytes(PCommind), "rind": SBytes(rind),
		"arg_nonneg": util.EncodeARGnonneg(nn), "arg_equal": util.EncodeARGequal(eq),
	}
}

// Peer: a loopback listener that records the messages it receives
type Peer struct {
	Addr *net.TCPAddr
	C    chan *proto.Event
	l    *net.TCPListener
}

func NewPeer() *Peer {
	l, e := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if e != nil {
		panic(e)
	}
	p := &Peer{Addr: l.Addr().(*net.TCPAddr), C: make(chan *proto.Event, 100), l: l}
	go func() {
		for {
			c, e := l.Accept()
			if e != nil {
				return
			}
			var buf bytes.Buffer
			buf.ReadFrom(c)
			c.Close()
			ev := &proto.Event{}
			if gob.NewDecoder(&buf).Decode(ev) != nil {
				ev = &proto.Event{EventType: -1}
			}
			p.C <- ev
		}
	}()
	return p
}

// Next: the next message, or nil if none comes
func (p *Peer) Next() *proto.Event {
	select {
	case e := <-p.C:
		return e
	case <-time.After(1500 * time.Millisecond):
		return nil
	}
}
func (p *Peer) Quiet() *proto.Event {
	select {
	case e := <-p.C:
		return e
	case <-time.After(150 * time.Millisecond):
		return nil
	}
}
func (p *Peer) Close() { p.l.Close() }

// Local: the node's own address (only its text is used)
func Local() *net.TCPAddr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9} }

// Stops: runs f, true if it panicked
func Stops(f func()) (stopped bool) {
	defer func() {
		if recover() != nil {
			stopped = true
		}
	}()
	f()
	return
}

// Nonces: the one-time secrets of signatures by x; Seen reports a secret used before (or zero)
type Nonces map[string]bool

func (n Nonces) Seen(x abstract.Secret, sig []byte) bool {
	s := Suite()
	l := s.SecretLen()
	if len(sig) < 2*l {
		return true
	}
	c, r := s.Secret(), s.Secret()
	if c.UnmarshalBinary(sig[:l]) != nil || r.UnmarshalBinary(sig[l:2*l]) != nil {
		return true
	}
	v := s.Secret().Mul(x, c)
	v.Add(v, r)
	k := v.String()
	if n[k] || v.Equal(s.Secret().Zero()) {
		return true
	}
	n[k] = true
	return false
}
