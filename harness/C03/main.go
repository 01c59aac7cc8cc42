package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

const b32 = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func text(s string) string {
	hrp, d, err := xbase.Bech32Decode(s)
	whrp, wd, ok := oracle.Bech32Dec(s)
	if (err == nil) != ok {
		return fmt.Sprintf("decoding %q: %v, should be accepted: %v", s, err, ok)
	}
	if ok && (hrp != whrp || !bytes.Equal(d, wd)) {
		return fmt.Sprintf("%q decodes to %q %x, should be %q %x", s, hrp, d, whrp, wd)
	}
	// as a segwit address
	ph, v, prog, err := xbase.WitnessDecode(s)
	var want []byte
	if ok = ok && len(wd) > 0; ok {
		want, ok = oracle.To8(wd[1:])
	}
	if (err == nil) != ok {
		return fmt.Sprintf("regrouping %q: %v, should be accepted: %v", s, err, ok)
	}
	if ok && (ph != whrp || v != wd[0] || !bytes.Equal(prog, want)) {
		return fmt.Sprintf("%q is version %d program %x, should be %d %x", s, v, prog, wd[0], want)
	}
	return ""
}

func roundTrip(t *h.T, hrp string, d []byte) string {
	buf := append(append(make([]byte, 0, len(d)+16), d...), bytes.Repeat([]byte{0xEE}, 16)...)
	s, err := xbase.Bech32Encode(hrp, buf[:len(d)])
	if err != nil || s != oracle.Bech32(hrp, d) {
		return fmt.Sprintf("encodes to %q %v, should be %q", s, err, oracle.Bech32(hrp, d))
	}
	if !bytes.Equal(buf[:len(d)], d) || !bytes.Equal(buf[len(d):], bytes.Repeat([]byte{0xEE}, 16)) {
		return fmt.Sprintf("encoding changes the caller's data: %x", buf)
	}
	if len(s) <= 90 {
		for _, x := range []string{s, strings.ToUpper(s)} {
			gh, gd, err := xbase.Bech32Decode(x)
			if err != nil || gh != hrp || !bytes.Equal(gd, d) {
				return fmt.Sprintf("%q decodes to %q %x %v", x, gh, gd, err)
			}
		}
	}
	return text(s)
}

func main() {
	h.Main("C03", func(t *h.T) {
		hrps := []string{"bc", "tb", "a", "1", "11", "bc1", "~!", "abcdef", "x-y_z.9"}
		gen := func() (string, []byte) {
			hrp := hrps[t.R.Intn(len(hrps))]
			if t.R.Intn(3) == 0 {
				b := make([]byte, 1+t.R.Intn(20))
				for i := range b {
					b[i] = byte(33 + t.R.Intn(94))
				}
				hrp = strings.ToLower(string(b))
			}
			n := t.R.Intn(84 - len(hrp))
			if t.R.Intn(6) == 0 {
				n = []int{0, 1, 90 - 7 - len(hrp), 91 - 7 - len(hrp), 33, 53}[t.R.Intn(6)]
			}
			d := make([]byte, n)
			for i := range d {
				d[i] = byte(t.R.Intn(32))
				if t.R.Intn(10) == 0 {
					d[i] = []byte{0, 31}[t.R.Intn(2)]
				}
			}
			return hrp, d
		}
		for i := 0; i < t.N(4000) && t.Time(0.3); i++ {
			hrp, d := gen()
			t.Case("roundtrip", fmt.Sprintf("%q %x", hrp, d), func() string { return roundTrip(t, hrp, d) })
		}
		// illegal values
		for v := 32; v < 256; v++ {
			d := []byte{1, 2, byte(v), 3}
			t.Case("value", fmt.Sprint(v), func() string {
				if s, err := xbase.Bech32Encode("bc", d); err == nil {
					return fmt.Sprintf("a value of %d is encoded: %q", v, s)
				}
				return ""
			})
		}
		// every change of one character
		for i := 0; i < t.N(60) && t.Time(0.6); i++ {
			hrp, d := gen()
			s := oracle.Bech32(hrp, d)
			if len(s) > 90 {
				continue
			}
			for p := range []byte(s) {
				for k := 0; k < 32; k++ {
					c := b32[k]
					if p < len(hrp)+1 {
						c = byte(33 + t.R.Intn(94))
					}
					x := s[:p] + string([]byte{c}) + s[p+1:]
					if x == s {
						continue
					}
					t.Case("changed", fmt.Sprintf("%q from %q", x, s), func() string {
						if _, _, err := xbase.Bech32Decode(x); err == nil && p > len(hrp) {
							return "a changed data character is accepted"
						}
						return text(x)
					})
				}
			}
		}
		// checksums of other constants, mixed case, other characters, lengths
		for i := 0; i < t.N(6000) && t.Time(0.85); i++ {
			hrp, d := gen()
			b := []byte(oracle.Bech32(hrp, d))
			switch t.R.Intn(7) {
			case 0:
				p := t.R.Intn(len(b))
				b[p] = byte(t.R.Intn(256))
			case 1:
				p := t.R.Intn(len(b))
				if b[p] >= 'a' && b[p] <= 'z' {
					b[p] -= 32
				}
			case 2:
				for k := 0; k < 1+t.R.Intn(6); k++ {
					b[len(b)-1-k%6] = b32[t.R.Intn(32)]
				}
			case 3:
				b = b[:t.R.Intn(len(b))]
			case 4:
				p := t.R.Intn(len(b))
				b = append(b[:p:p], append([]byte{b32[t.R.Intn(32)]}, b[p:]...)...)
			case 5:
				p := bytes.LastIndexByte(b, '1')
				b = b[p:]
			case 6:
				b = bytes.Replace(b, []byte("1"), []byte("2"), -1)
			}
			t.Case("text", fmt.Sprintf("%q", b), func() string { return text(string(b)) })
		}
		// regrouping
		for i := 0; i < t.N(5000) && t.Time(1); i++ {
			p := t.Bytes(t.Len(45, 2, 20, 32, 40))
			v := byte(t.R.Intn(32))
			t.Case("regroup", fmt.Sprintf("version=%d %x", v, p), func() string {
				buf := append(append(make([]byte, 0, len(p)+4), p...), 0xEE, 0xEE)
				s, err := xbase.WitnessEncode("bc", v, buf[:len(p)])
				if want := oracle.Bech32("bc", append([]byte{v}, oracle.To5(p)...)); err != nil || s != want {
					return fmt.Sprintf("%q %v, should be %q", s, err, want)
				}
				if buf[len(p)] != 0xEE || !bytes.Equal(p, buf[:len(p)]) {
					return "changes the caller's data"
				}
				return text(s)
			})
			d := make([]byte, 1+t.R.Intn(60))
			for k := range d {
				d[k] = byte(t.R.Intn(32))
			}
			if t.R.Intn(2) == 0 {
				d = append([]byte{0}, oracle.To5(p)...)
				switch t.R.Intn(3) {
				case 0:
					d = append(d, 0)
				case 1:
					d[len(d)-1] ^= 1
				}
			}
			s := oracle.Bech32("tb", d)
			t.Case("regroup-text", s, func() string { return text(s) })
		}
	})
}
