package util

import (
	"bytes"
	"math/big"
	"reflect"
	"testing"
	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen_fujiokam"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	suite := nist.NewAES128SHA256QR512()
	try := func(what string, f func()) {
		defer func() {
			if e := recover(); e != nil {
				fail("%s: stops: %v", what, e)
			}
		}()
		f()
	}
	bigs := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(-1), big.NewInt(255), big.NewInt(256), big.NewInt(-65536), new(big.Int).Lsh(big.NewInt(1), 1024), new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(3), 2000)), random.Int(new(big.Int).Lsh(big.NewInt(1), 1100), random.Stream)}
	for _, b := range bigs {
		b := b
		try("big integer", func() {
			if DecodeBigInt(EncodeBigInt(b)).Cmp(b) != 0 {
				fail("big integer %v is not restored", b)
			}
		})
	}
	for _, n := range []int{79, 80, 100, 127, 128, 129, 255, 256, 257, 300, 479, 480, 481, 511, 512, 513, 1000, 4097, 70001} {
		bs, is, bb, gs := make([]bool, n), make([]int, n), make([][]byte, n), make([]*big.Int, n)
		for i := range bs {
			bs[i] = (i*i+n)%3 == 0
			is[i] = i*n - 7
			bb[i] = []byte{byte(i), byte(n)}[:1+i%2]
			gs[i] = big.NewInt(int64(n - i))
		}
		bb[n/2] = make([]byte, n)
		try("long lists", func() {
			if r := ProtobufDecodeBoolList(ProtobufEncodeBoolList(bs)); !reflect.DeepEqual(r, bs) {
				fail("%d booleans are not restored", n)
			}
			if r := DecodeIntArray(EncodeIntArray(is)); !reflect.DeepEqual(r, is) {
				fail("%d integers are not restored", n)
			}
			if r := Decode2DByteArray(Encode2DByteArray(bb)); !reflect.DeepEqual(r, bb) {
				fail("%d byte strings are not restored", n)
			}
			r := ProtobufDecodeBigIntList(ProtobufEncodeBigIntList(gs))
			same := len(r) == n
			for i := 0; same && i < n; i++ {
				same = r[i].Cmp(gs[i]) == 0
			}
			if !same {
				fail("%d big integers are not restored", n)
			}
		})
	}
	for n := 0; n <= len(bigs); n++ {
		try("big integer list", func() {
			r := ProtobufDecodeBigIntList(ProtobufEncodeBigIntList(bigs[:n]))
			if len(r) != n {
				fail("list of %d integers becomes %d", n, len(r))
				return
			}
			for i := range r {
				if r[i].Cmp(bigs[i]) != 0 {
					fail("integer %d of %d is not restored", i, n)
				}
			}
		})
	}
	for _, n := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 31, 33, 64, 65} {
		bs := make([]bool, n)
		is := make([]int, n)
		ps := make([]abstract.Point, n)
		ss := make([]abstract.Secret, n)
		bb := make([][]byte, n)
		for i := range bs {
			bs[i] = (i*i+n)%3 == 0
			is[i] = (i - 3) * (i + 1) * 1000003 * n
			ps[i] = suite.Point().Mul(nil, suite.Secret().Pick(random.Stream))
			ss[i] = suite.Secret().Pick(random.Stream)
			bb[i] = random.Bytes(i*7, random.Stream)
		}
		if n > 2 {
			ps[1], ss[1] = ps[0], suite.Secret().SetInt64(0)
			ss[2] = suite.Secret().SetInt64(1)
		}
		try("lists", func() {
			if r := ProtobufDecodeBoolList(ProtobufEncodeBoolList(bs)); len(r) != n || n > 0 && !reflect.DeepEqual(r, bs) {
				fail("booleans %v become %v", bs, r)
			}
			if r := DecodeIntArray(EncodeIntArray(is)); len(r) != n || n > 0 && !reflect.DeepEqual(r, is) {
				fail("integers %v become %v", is, r)
			}
			if r := Decode2DByteArray(Encode2DByteArray(bb)); len(r) != n {
				fail("%d byte strings become %d", n, len(r))
			} else {
				for i := range r {
					if !bytes.Equal(r[i], bb[i]) {
						fail("byte string %d is not restored", i)
					}
				}
			}
			if r := ProtobufDecodePointList(ProtobufEncodePointList(ps)); len(r) != n {
				fail("%d points become %d", n, len(r))
			} else {
				for i := range r {
					if !r[i].Equal(ps[i]) {
						fail("point %d of %d is not restored", i, n)
					}
				}
			}
			if r := ProtobufDecodeSecretList(ProtobufEncodeSecretList(ss)); len(r) != n {
				fail("%d secrets become %d", n, len(r))
			} else {
				for i := range r {
					if !r[i].Equal(ss[i]) {
						fail("secret %d of %d is not restored", i, n)
					}
				}
			}
		})
		for i := range ps {
			p, s := ps[i], ss[i]
			try("single", func() {
				if !DecodePoint(suite, EncodePoint(p)).Equal(p) {
					fail("a point is not restored")
				}
				if !DecodeSecret(suite, EncodeSecret(s)).Equal(s) {
					fail("a secret is not restored")
				}
			})
		}
		// lookups
		for i := -1; i < n; i++ {
			var nym abstract.Point
			want := i
			if i < 0 {
				nym = suite.Point().Mul(nil, suite.Secret().Pick(random.Stream))
			} else {
				nym = suite.Point().Add(ps[i], suite.Point().Mul(nil, suite.Secret().SetInt64(0)))
				for j := 0; j < i; j++ {
					if ps[j].Equal(nym) {
						want = j
						break
					}
				}
			}
			try("lookup", func() {
				if r := FindIndexWithinKeyList(ps, nym); r != want {
					fail("pseudonym %d of %d is found at %d", want, n, r)
				}
				wi := 0
				if want >= 0 {
					wi = is[want]
				}
				if r := FindIntUsingKeyList(ps, is, nym); r != wi {
					fail("entry of pseudonym %d of %d is %d instead of %d", want, n, r, wi)
				}
				c, e := FindCommUsingKeyList(ps, ps, ss, nym)
				if want < 0 {
					if c != nil || e != nil {
						fail("commitment of an unknown pseudonym")
					}
				} else if c != ps[want] || e != ss[want] {
					fail("wrong commitment or exponent for pseudonym %d", want)
				}
			})
		}
	}
	for _, n := range []int{0, 1, 127, 128, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		n := n
		try("integer", func() {
			if r := ByteToInt(IntToByte(n)); r != n {
				fail("integer %d becomes %d", n, r)
			}
		})
	}
	for k := 0; k < 3; k++ {
		try("arguments", func() {
			a := &fujiokam.ARGnonneg{}
			v := reflect.ValueOf(a).Elem()
			for i := 0; i < v.NumField(); i++ {
				v.Field(i).Set(reflect.ValueOf(bigs[(i*(k+1)+k)%len(bigs)]))
			}
			r := reflect.ValueOf(DecodeARGnonneg(EncodeARGnonneg(a))).Elem()
			for i := 0; i < v.NumField(); i++ {
				if v.Field(i).Interface().(*big.Int).Cmp(r.Field(i).Interface().(*big.Int)) != 0 {
					fail("field %d of a non-negativity argument is not restored", i)
				}
			}
			e := &pedersen_fujiokam.ARGequal{}
			v = reflect.ValueOf(e).Elem()
			for i := 0; i < v.NumField(); i++ {
				v.Field(i).Set(reflect.ValueOf(bigs[(i*(k+1)+k+1)%len(bigs)]))
			}
			r = reflect.ValueOf(DecodeARGequal(EncodeARGequal(e))).Elem()
			for i := 0; i < v.NumField(); i++ {
				if v.Field(i).Interface().(*big.Int).Cmp(r.Field(i).Interface().(*big.Int)) != 0 {
					fail("field %d of an equality argument is not restored", i)
				}
			}
		})
	}
}
