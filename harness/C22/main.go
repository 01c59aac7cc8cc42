package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

func bi(n int64) *big.Int { return big.NewInt(n) }

func parse(b []byte) string {
	want, ok := oracle.ParsePub(b)
	if len(b) == 65 && (b[0] == 6 || b[0] == 7) {
		x, y := oracle.Int(b[1:33]), oracle.Int(b[33:])
		want, ok = oracle.Pt{X: x, Y: y}, oracle.OnCurve(x, y) && byte(y.Bit(0)) == b[0]-6
	}
	keep := append([]byte{}, b...)
	p, err := xcrypto.PubKeyFromBytes(b)
	if !bytes.Equal(keep, b) {
		return "the input was changed"
	}
	if (err == nil) != ok {
		return fmt.Sprintf("accepted is %v, should be %v (%v)", err == nil, ok, err)
	}
	if err == nil && (p == nil || p.X.Cmp(want.X) != 0 || p.Y.Cmp(want.Y) != 0) {
		return fmt.Sprintf("parsed to %v, should be (%x,%x)", p, want.X, want.Y)
	}
	if len(b) != 65 {
		x, y := secp256k1.SecUnmarshal(secp256k1.SECP256K1(), b)
		if (x != nil && y != nil) != ok {
			return fmt.Sprintf("SecUnmarshal: accepted is %v, should be %v", x != nil, ok)
		}
		if ok && (x.Cmp(want.X) != 0 || y.Cmp(want.Y) != 0) {
			return "SecUnmarshal: another point"
		}
	}
	return ""
}

func main() {
	h.Main("C22", func(t *h.T) {
		text := func(b []byte) string { return fmt.Sprintf("%x", b) }
		one := func(b []byte) { t.Case("parse", text(b), func() string { return parse(b) }) }
		trip := func(q oracle.Pt, via string, p *xcrypto.PubKey) {
			t.Case("encode", fmt.Sprintf("(%x,%x) from %s", q.X, q.Y, via), func() string {
				hy := append([]byte{6 + byte(q.Y.Bit(0))}, oracle.Uncompressed(q)[1:]...)
				for _, e := range []struct {
					name      string
					got, want []byte
				}{
					{"Serialize", p.Serialize(), oracle.Compressed(q)},
					{"SerializeCompressed", p.SerializeCompressed(), oracle.Compressed(q)},
					{"SerializeUncompressed", p.SerializeUncompressed(), oracle.Uncompressed(q)},
					{"SerializeHybrid", p.SerializeHybrid(), hy},
					{"SecMarshal", secp256k1.SecMarshal(secp256k1.SECP256K1(), p.X, p.Y), oracle.Compressed(q)},
				} {
					if !bytes.Equal(e.got, e.want) {
						return fmt.Sprintf("%s gave %x, should be %x", e.name, e.got, e.want)
					}
					b, err := xcrypto.PubKeyFromBytes(e.got)
					if err != nil {
						return e.name + " does not parse back: " + err.Error()
					}
					if b.X.Cmp(q.X) != 0 || b.Y.Cmp(q.Y) != 0 {
						return e.name + " parses back to another point"
					}
				}
				if p.X.Cmp(q.X) != 0 || p.Y.Cmp(q.Y) != 0 {
					return "the key was changed"
				}
				return ""
			})
		}
		points := []oracle.Pt{}
		for i := int64(1); i <= 40; i++ {
			points = append(points, oracle.Mul(oracle.G, bi(i)), oracle.Neg(oracle.Mul(oracle.G, bi(i))))
		}
		// Points whose x has leading zero bytes, and the largest x.
		for _, bits := range []uint{0, 1, 8, 16, 100, 200, 240, 247, 248, 255} {
			for n, x := 0, new(big.Int).Sub(new(big.Int).Lsh(bi(1), bits), bi(1)); n < 2; x.Add(x, bi(1)) {
				if q, ok := oracle.ParsePub(append([]byte{2}, oracle.B32(x)...)); ok {
					points = append(points, q, oracle.Neg(q))
					n++
				}
			}
		}
		for n, x := 0, new(big.Int).Sub(oracle.P, bi(1)); n < 3; x.Sub(x, bi(1)) {
			if q, ok := oracle.ParsePub(append([]byte{3}, oracle.B32(x)...)); ok {
				points = append(points, q, oracle.Neg(q))
				n++
			}
		}
		// Points whose y has leading zero bytes: x is a cube root of y^2-7.
		for n, y := 0, bi(1); n < 6; y.Add(y, bi(1)) {
			c := new(big.Int).Mul(y, y)
			c.Sub(c, bi(7)).Mod(c, oracle.P)
			// p = 7 mod 9: the cube root, where there is one, is c^((p+2)/9).
			e := new(big.Int).Add(oracle.P, bi(2))
			x := new(big.Int).Exp(c, e.Div(e, bi(9)), oracle.P)
			if oracle.OnCurve(x, y) {
				q := oracle.Pt{X: x, Y: new(big.Int).Set(y)}
				points = append(points, q, oracle.Neg(q))
				n++
			}
		}
		for i := 0; i < t.N(40); i++ {
			points = append(points, oracle.Mul(oracle.G, new(big.Int).Mod(oracle.Int(t.Bytes(32)), oracle.N)))
		}
		for _, q := range points {
			p, err := xcrypto.PubKeyFromBytes(oracle.Uncompressed(q))
			if err != nil {
				one(oracle.Uncompressed(q))
				continue
			}
			trip(q, "bytes", p)
			c, u := oracle.Compressed(q), oracle.Uncompressed(q)
			one(c)
			one(u)
			// Every prefix, every neighbouring length.
			for _, b := range [][]byte{c, u} {
				for _, pre := range []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 0x12, 0x42, 0x82, 0x83, 0x84, 0xfe, 0xff} {
					one(append([]byte{pre}, b[1:]...))
				}
				one(b[:len(b)-1])
				one(append(append([]byte{}, b...), byte(t.R.Intn(256))))
				w := append([]byte{}, b...)
				w[1+t.R.Intn(len(w)-1)] ^= byte(1 << uint(t.R.Intn(8)))
				one(w)
			}
			// A coordinate plus the field size, where that fits.
			for _, d := range []*big.Int{q.X, q.Y} {
				s := new(big.Int).Add(d, oracle.P)
				if s.BitLen() <= 256 {
					if d == q.X {
						one(append([]byte{c[0]}, oracle.B32(s)...))
						one(append(append([]byte{4}, oracle.B32(s)...), u[33:]...))
						one(append(append([]byte{6 + byte(q.Y.Bit(0))}, oracle.B32(s)...), u[33:]...))
					} else {
						one(append(append([]byte{}, u[:33]...), oracle.B32(s)...))
						one(append(append([]byte{6 + byte(s.Bit(0))}, u[1:33]...), oracle.B32(s)...))
						one(append(append([]byte{7 - byte(s.Bit(0))}, u[1:33]...), oracle.B32(s)...))
					}
				}
			}
			// Swapped and negated.
			one(append(append([]byte{4}, u[33:]...), u[1:33]...))
		}
		// Every field value near the ends, on the curve or not.
		for _, base := range []*big.Int{bi(0), oracle.P, new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), bi(40))} {
			for d := int64(-40); d < 40; d++ {
				x := new(big.Int).Add(base, bi(d))
				if x.Sign() < 0 || x.BitLen() > 256 {
					continue
				}
				for _, pre := range []byte{2, 3} {
					one(append([]byte{pre}, oracle.B32(x)...))
				}
				one(append(append([]byte{4}, oracle.B32(x)...), oracle.B32(bi(0))...))
				one(append(append([]byte{4}, oracle.B32(bi(0))...), oracle.B32(x)...))
			}
		}
		for n := 0; n <= 70; n++ {
			for _, pre := range []byte{0, 2, 3, 4, 6, 7} {
				b := t.Bytes(n)
				if n > 0 {
					b[0] = pre
				}
				one(b)
				if n > 0 {
					z := make([]byte, n)
					z[0] = pre
					one(z)
				}
			}
		}
		one(nil)
		for i := 0; i < t.N(300) && t.Time(0.7); i++ {
			d := new(big.Int).Mod(oracle.Int(t.Bytes(32)), oracle.N)
			if i < 20 {
				d.SetInt64(int64(i + 1))
			}
			if d.Sign() == 0 {
				continue
			}
			trip(oracle.Mul(oracle.G, d), "private key "+d.Text(16), xcrypto.PrvKeyFromBytes(d.Bytes()).PubKey())
		}
		for i := 0; i < t.N(300); i++ {
			n := []int{33, 65}[t.R.Intn(2)]
			b := t.Bytes(n)
			b[0] = byte(t.R.Intn(8))
			one(b)
		}
	})
}
