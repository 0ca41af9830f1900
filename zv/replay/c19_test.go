package bridge

import (
	"bytes"
	"testing"
	"zRep/zvlib"
)

func TestZV(t *testing.T) {
	fail := func(f string, a ...interface{}) { t.Errorf("ZV-FAIL: "+f, a...) }
	ints := []int{0, 1, -1, 2, 3, 5, 127, 128, 255, 256, 257, 1000, 65535, 65536, 65537, 1 << 24, 1<<24 + 1, 1<<31 - 1, -1 << 31, -2, -128, -256, -65536}
	bs := func(l byte, n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = l + byte(i)
		}
		return b
	}
	vals := [][]byte{bs(1, 64), bs(2, 64), bs(1, 63), bs(1, 65), append([]byte{0}, bs(1, 64)...), append(bs(1, 64), 0), {}, {0}, {0, 0}, bs(1, 200), append(bs(1, 63), 200)}
	body := func(what string, f func(map[string]interface{}) []byte, m map[string]interface{}) (b []byte) {
		if zvlib.Stops(func() { b = append([]byte{}, f(m)...) }) {
			fail("%s: the message body of a complete message cannot be computed", what)
		}
		return
	}
	for what, c := range map[string]struct {
		f func(map[string]interface{}) []byte
		k []string
	}{
		"request":   {MessageOfRequestBridges, []string{"#ind", "nym", "FOCommd", "PCommd", "PCommind", "rind", "arg_nonneg", "arg_equal"}},
		"post":      {MessageOfPostBridge, []string{"$bridge_addr", "nym"}},
		"delivered": {MessageOfGotSignatures, []string{"assignment", "signatures"}},
		"vote":      {MessageOfVote, []string{"nym", "assignment", "signatures", "#feedback"}},
	} {
		other := 3
		all := func() map[string]interface{} {
			m := map[string]interface{}{}
			for i, k := range c.k {
				switch k[0] {
				case '#':
					m[k[1:]] = other
				case '$':
					m[k[1:]] = "10.1.2.3:4"
				default:
					m[k] = bs(byte(10*i+3), 70)
				}
			}
			return m
		}
		for _, k := range c.k {
			var vs []interface{}
			switch k[0] {
			case '#':
				for _, v := range ints {
					vs = append(vs, v)
				}
			case '$':
				for _, v := range vals {
					vs = append(vs, string(v))
				}
			default:
				for _, v := range vals {
					vs = append(vs, v)
				}
			}
			key := k
			if k[0] == '#' || k[0] == '$' {
				key = k[1:]
			}
			for x := 0; x < 3*len(vs); x++ {
				i := x / 3
				other = []int{3, 0, -1}[x%3]
				for j := 0; j < i; j++ {
					a, b := all(), all()
					a[key], b[key] = vs[i], vs[j]
					if bytes.Equal(body(what, c.f, a), body(what, c.f, b)) {
						fail("%s: the signed bytes are the same for %s = %v and %s = %v", what, key, vs[i], key, vs[j])
						return
					}
				}
			}
		}
	}
}
