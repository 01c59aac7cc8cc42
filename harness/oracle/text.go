package oracle

import (
	"bytes"
	"strings"
)

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// Base58 encodes by repeated long division.
func Base58(b []byte) string {
	d := append([]byte(nil), b...)
	var out []byte
	for {
		rem, zero := 0, true
		for i := range d {
			v := rem*256 + int(d[i])
			d[i] = byte(v / 58)
			rem = v % 58
			zero = zero && d[i] == 0
		}
		nonzero := !zero || rem != 0
		if !nonzero {
			break
		}
		out = append([]byte{b58[rem]}, out...)
	}
	for _, x := range b {
		if x != 0 {
			break
		}
		out = append([]byte{'1'}, out...)
	}
	return string(out)
}

// Base58Dec decodes by repeated multiplication.
func Base58Dec(s string) ([]byte, bool) {
	var d []byte // little-endian
	zeros, lead := 0, true
	for i := 0; i < len(s); i++ {
		v := strings.IndexByte(b58, s[i])
		if v < 0 {
			return nil, false
		}
		if lead && v == 0 {
			zeros++
			continue
		}
		lead = false
		c := v
		for k := range d {
			c += int(d[k]) * 58
			d[k] = byte(c)
			c >>= 8
		}
		if c > 0 {
			d = append(d, byte(c))
		}
	}
	out := make([]byte, zeros)
	for i := len(d) - 1; i >= 0; i-- {
		out = append(out, d[i])
	}
	return out, true
}

// Base58Check appends the checksum.
func Base58Check(version byte, p []byte) string {
	b := append([]byte{version}, p...)
	return Base58(append(b, DSha(b)[:4]...))
}

// Base58CheckDec verifies the checksum.
func Base58CheckDec(s string) (version byte, p []byte, ok bool) {
	b, ok := Base58Dec(s)
	if !ok || len(b) < 5 {
		return 0, nil, false
	}
	n := len(b) - 4
	return b[0], b[1:n], bytes.Equal(DSha(b[:n])[:4], b[n:])
}

// B32 alphabet of BIP173
const b32 = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// bch computes the BIP173 residue as polynomial division over GF(32).
func bch(v []byte) [6]byte {
	// remainder of (1, v...) times x^0 modulo the generator, tracked as six GF(32) digits
	gen := [5]uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	c := [6]byte{0, 0, 0, 0, 0, 1}
	for _, x := range v {
		top := c[0]
		c = [6]byte{c[1], c[2], c[3], c[4], c[5], x}
		for i := 0; i < 5; i++ {
			if top>>uint(i)&1 == 1 {
				for k := 0; k < 6; k++ {
					c[k] ^= byte(gen[i]>>uint(25-5*k)) & 31
				}
			}
		}
	}
	return c
}

func expand(hrp string) []byte {
	var v []byte
	for i := range []byte(hrp) {
		v = append(v, hrp[i]/32)
	}
	v = append(v, 0)
	for i := range []byte(hrp) {
		v = append(v, hrp[i]%32)
	}
	return v
}

// Bech32 encodes 5-bit values under a lower-case part.
func Bech32(hrp string, data []byte) string {
	v := append(append(expand(hrp), data...), 0, 0, 0, 0, 0, 0)
	c := bch(v)
	c[5] ^= 1
	s := hrp + "1"
	for _, x := range append(append([]byte(nil), data...), c[:]...) {
		s += string(b32[x])
	}
	return s
}

// Bech32Dec is BIP173's decoder.
func Bech32Dec(s string) (hrp string, data []byte, ok bool) {
	if len(s) < 8 || len(s) > 90 {
		return
	}
	lo, up := false, false
	l := []byte(s)
	for i, x := range l {
		if x < 33 || x > 126 {
			return
		}
		if x >= 'a' && x <= 'z' {
			lo = true
		}
		if x >= 'A' && x <= 'Z' {
			up = true
			l[i] = x + 32
		}
	}
	if lo && up {
		return
	}
	p := bytes.LastIndexByte(l, '1')
	if p < 1 || len(l)-p-1 < 6 {
		return
	}
	for _, x := range l[p+1:] {
		v := strings.IndexByte(b32, x)
		if v < 0 {
			return
		}
		data = append(data, byte(v))
	}
	hrp = string(l[:p])
	if bch(append(expand(hrp), data...)) != [6]byte{0, 0, 0, 0, 0, 1} {
		return "", nil, false
	}
	return hrp, data[:len(data)-6], true
}

// To5 regroups bytes into 5-bit groups, zero padded.
func To5(b []byte) []byte {
	var r []byte
	for i := 0; i < len(b)*8; i += 5 {
		v := byte(0)
		for k := 0; k < 5; k++ {
			v <<= 1
			if j := i + k; j < len(b)*8 {
				v |= b[j/8] >> uint(7-j%8) & 1
			}
		}
		r = append(r, v)
	}
	return r
}

// To8 regroups 5-bit groups into bytes; the rest must be short and zero.
func To8(d []byte) ([]byte, bool) {
	n := len(d) * 5
	r := make([]byte, n/8)
	for i := 0; i < n; i++ {
		bit := d[i/5] >> uint(4-i%5) & 1
		if i < len(r)*8 {
			r[i/8] |= bit << uint(7-i%8)
		} else if bit != 0 {
			return nil, false
		}
	}
	return r, n%8 < 5
}
