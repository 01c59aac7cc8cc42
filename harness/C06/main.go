package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/keyfuse/tokucore/xvm"
	"github.com/keyfuse/tokucore/zzverif/h"
)

// shortest little-endian sign-magnitude form, computed over big integers
func enc(n *big.Int) []byte {
	m := new(big.Int).Abs(n).Bytes()
	var r []byte
	for i := len(m) - 1; i >= 0; i-- {
		r = append(r, m[i])
	}
	if len(r) == 0 {
		return nil
	}
	if r[len(r)-1] >= 0x80 {
		r = append(r, 0)
	}
	if n.Sign() < 0 {
		r[len(r)-1] |= 0x80
	}
	return r
}

func dec(b []byte) *big.Int {
	n := new(big.Int)
	for i := len(b) - 1; i >= 0; i-- {
		v := b[i]
		if i == len(b)-1 {
			v &= 0x7f
		}
		n.Lsh(n, 8).Add(n, big.NewInt(int64(v)))
	}
	if len(b) > 0 && b[len(b)-1]&0x80 != 0 {
		n.Neg(n)
	}
	return n
}

func one(t *h.T, v int64) {
	t.Case("encode-decode", fmt.Sprint(v), func() string {
		b := xvm.ScriptNum(v).Bytes()
		w := enc(big.NewInt(v))
		if !bytes.Equal(b, w) {
			return fmt.Sprintf("encodes to %x, want %x", b, w)
		}
		for _, max := range []int{len(w), len(w) + 1, 9} {
			if max > 9 {
				continue
			}
			n, err := xvm.MakeScriptNum(b, max)
			if err != nil || int64(n) != v {
				return fmt.Sprintf("decodes (limit %d) to %d, %v", max, n, err)
			}
		}
		if len(w) > 0 {
			if _, err := xvm.MakeScriptNum(b, len(w)-1); err == nil {
				return "longer than the limit yet accepted"
			}
		}
		i := xvm.ScriptNum(v).Int32()
		want := v
		if want > 1<<31-1 {
			want = 1<<31 - 1
		}
		if want < -1<<31 {
			want = -1 << 31
		}
		if int64(i) != want {
			return fmt.Sprintf("Int32 gives %d, want %d", i, want)
		}
		return ""
	})
}

func decode(t *h.T, b []byte, max int) {
	t.Case("decode-any", fmt.Sprintf("%x limit %d", b, max), func() string {
		in := append([]byte{}, b...)
		n, err := xvm.MakeScriptNum(in, max)
		v := dec(b)
		ok := len(b) <= max && bytes.Equal(enc(v), b)
		if !bytes.Equal(in, b) {
			return "the input was changed"
		}
		if (err == nil) != ok {
			return fmt.Sprintf("error %v, want acceptance %v", err, ok)
		}
		if ok && int64(n) != v.Int64() {
			return fmt.Sprintf("gives %d, want %v", n, v)
		}
		return ""
	})
}

func main() {
	h.Main("C06", func(t *h.T) {
		for _, k := range []uint{0, 1, 7, 8, 15, 16, 23, 24, 31, 32, 39, 40, 47, 48, 55, 56, 62, 63} {
			for d := int64(-300); d <= 300; d++ {
				v := int64(uint64(1)<<k) + d
				one(t, v)
				one(t, -v)
			}
		}
		for i := 0; i < t.N(100000); i++ {
			one(t, int64(t.U64()))
		}
		// every string of at most two bytes, against every limit
		for n := 0; n <= 2; n++ {
			for x := 0; x < 1<<uint(8*n); x++ {
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(x >> uint(8*i))
				}
				decode(t, b, 4)
				if x%97 == 0 {
					for m := 0; m < 9; m++ {
						decode(t, b, m)
					}
				}
			}
		}
		for i := 0; i < t.N(150000); i++ {
			b := t.Bytes(t.R.Intn(11))
			max := t.R.Intn(9)
			if len(b) > 0 {
				switch t.R.Intn(4) {
				case 0:
					b[len(b)-1] = []byte{0, 0x80}[t.R.Intn(2)]
				case 1:
					b[len(b)-1] = []byte{0, 0x80}[t.R.Intn(2)]
					if len(b) > 1 {
						b[len(b)-2] |= 0x80
					}
				}
			}
			decode(t, b, max)
		}
	})
}
