package main

import (
	"bytes"
	"fmt"

	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

const alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func one(b []byte, version byte) string {
	keep := append([]byte(nil), b...)
	s := xbase.Base58Encode(b)
	if w := oracle.Base58(b); s != w {
		return fmt.Sprintf("encodes to %q, should be %q", s, w)
	}
	if g := xbase.Base58Decode(s); !bytes.Equal(g, b) {
		return fmt.Sprintf("%q decodes to %x", s, g)
	}
	c := xbase.Base58CheckEncode(b, version)
	if w := oracle.Base58Check(version, b); c != w {
		return fmt.Sprintf("check-encodes to %q, should be %q", c, w)
	}
	p, v, err := xbase.Base58CheckDecode(c)
	if err != nil || v != version || !bytes.Equal(p, b) {
		return fmt.Sprintf("%q check-decodes to %x %d %v", c, p, v, err)
	}
	if !bytes.Equal(b, keep) {
		return "encoding changes the data"
	}
	return ""
}

func text(s string) string {
	g := xbase.Base58Decode(s)
	w, ok := oracle.Base58Dec(s)
	if !ok {
		w = nil
	}
	if !bytes.Equal(g, w) {
		return fmt.Sprintf("decodes to %x, should be %x (legal text: %v)", g, w, ok)
	}
	p, v, err := xbase.Base58CheckDecode(s)
	wv, wp, wok := oracle.Base58CheckDec(s)
	if (err == nil) != wok {
		return fmt.Sprintf("check-decoding: %v, the checksum is right: %v", err, wok)
	}
	if wok && (v != wv || !bytes.Equal(p, wp)) {
		return fmt.Sprintf("check-decodes to %d %x, should be %d %x", v, p, wv, wp)
	}
	return ""
}

func main() {
	h.Main("C02", func(t *h.T) {
		var in [][]byte
		in = append(in, nil)
		for a := 0; a < 256; a++ {
			in = append(in, []byte{byte(a)}, []byte{0, byte(a)}, []byte{0, 0, byte(a)}, []byte{byte(a), 0})
		}
		for n := 1; n < 90; n++ {
			in = append(in, make([]byte, n), bytes.Repeat([]byte{0xff}, n), append(make([]byte, n), 1), append([]byte{1}, make([]byte, n)...))
		}
		// powers of 58 and their neighbours
		for _, n := range []int{1, 2, 3, 5, 10, 11, 20, 43, 44} {
			for _, s := range []string{"2", "z", "zz", "21", "1z"} {
				x := s
				for i := 0; i < n; i++ {
					x += []string{"1", "z"}[n%2]
				}
				b, _ := oracle.Base58Dec(x)
				in = append(in, b)
			}
		}
		for i := 0; i < t.N(3000); i++ {
			n := t.Len(120, 20, 21, 25, 32, 33, 64, 78, 82)
			if i%200 == 0 {
				n = 500
			}
			in = append(in, append(make([]byte, []int{0, 0, 1, 2, 7}[t.R.Intn(5)]), t.Bytes(n)...))
		}
		for i, b := range in {
			b, v := b, byte(i*37)
			if i%3 == 0 {
				v = 0
			}
			t.Case("bytes", fmt.Sprintf("version=%d %x", v, b), func() string { return one(b, v) })
		}
		// every character at every position
		for _, base := range []string{"", "1", "11", "2g", "z", "1NS17iag9jJgTHD1VXjvLCEnZuQ3rJDE9L", "3MNQE1X"} {
			for p := 0; p <= len(base); p++ {
				for c := 0; c < 256; c++ {
					s := base[:p] + string([]byte{byte(c)}) + base[p:]
					t.Case("text", fmt.Sprintf("%q", s), func() string { return text(s) })
				}
			}
		}
		for i := 0; i < t.N(4000) && t.Time(0.8); i++ {
			s := oracle.Base58Check(byte(t.R.Intn(256)), t.Bytes(t.R.Intn(40)))
			b := []byte(s)
			switch t.R.Intn(6) {
			case 0:
			case 1:
				b[t.R.Intn(len(b))] = alpha[t.R.Intn(58)]
			case 2:
				p := t.R.Intn(len(b))
				b = append(b[:p:p], b[p+1:]...)
			case 3:
				b = append([]byte("1"), b...)
			case 4:
				p := t.R.Intn(len(b))
				b[p], b[(p+1)%len(b)] = b[(p+1)%len(b)], b[p]
			default:
				// right payload, one checksum byte off
				d, _ := oracle.Base58Dec(s)
				d[len(d)-1-t.R.Intn(4)] ^= 1 << uint(t.R.Intn(8))
				b = []byte(oracle.Base58(d))
			}
			t.Case("check", fmt.Sprintf("%q", b), func() string { return text(string(b)) })
		}
	})
}
