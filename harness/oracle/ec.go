package oracle

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"math/big"
)

func hx(s string) *big.Int { x, _ := new(big.Int).SetString(s, 16); return x }

// secp256k1
var (
	P  = hx("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	N  = hx("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	Gx = hx("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	Gy = hx("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
)

// Pt is an affine point; X nil is infinity.
type Pt struct{ X, Y *big.Int }

var G = Pt{Gx, Gy}

func mod(x *big.Int) *big.Int    { return x.Mod(x, P) }
func mul(a, b *big.Int) *big.Int { return mod(new(big.Int).Mul(a, b)) }
func sub(a, b *big.Int) *big.Int { return mod(new(big.Int).Sub(a, b)) }

// OnCurve says whether (x, y) is a point of the curve with reduced coordinates.
func OnCurve(x, y *big.Int) bool {
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(P) >= 0 || y.Cmp(P) >= 0 {
		return false
	}
	r := mul(mul(x, x), x)
	r.Add(r, big.NewInt(7))
	return mul(y, y).Cmp(mod(r)) == 0
}

// Add is the group operation by the textbook formulas.
func Add(a, b Pt) Pt {
	if a.X == nil {
		return b
	}
	if b.X == nil {
		return a
	}
	var l *big.Int
	if a.X.Cmp(b.X) == 0 {
		if a.Y.Cmp(b.Y) != 0 || a.Y.Sign() == 0 {
			return Pt{}
		}
		l = mul(mul(big.NewInt(3), mul(a.X, a.X)), new(big.Int).ModInverse(mul(big.NewInt(2), a.Y), P))
	} else {
		l = mul(sub(b.Y, a.Y), new(big.Int).ModInverse(sub(b.X, a.X), P))
	}
	x := sub(sub(mul(l, l), a.X), b.X)
	return Pt{x, sub(mul(l, sub(a.X, x)), a.Y)}
}

// Neg is the inverse.
func Neg(a Pt) Pt {
	if a.X == nil {
		return a
	}
	return Pt{a.X, sub(new(big.Int), a.Y)}
}

// Mul is k times a for any integer k >= 0 (not reduced).
func Mul(a Pt, k *big.Int) Pt {
	var r Pt
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = Add(r, r)
		if k.Bit(i) == 1 {
			r = Add(r, a)
		}
	}
	return r
}

// Eq compares points.
func Eq(a, b Pt) bool {
	if a.X == nil || b.X == nil {
		return a.X == nil && b.X == nil
	}
	return a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0
}

// B32 is x as 32 big-endian bytes.
func B32(x *big.Int) []byte { return x.FillBytes(make([]byte, 32)) }

// Int reads big-endian bytes.
func Int(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

// Compressed and Uncompressed encode a point.
func Compressed(p Pt) []byte {
	return append([]byte{2 + byte(p.Y.Bit(0))}, B32(p.X)...)
}
func Uncompressed(p Pt) []byte {
	return append(append([]byte{4}, B32(p.X)...), B32(p.Y)...)
}

// ParsePub decodes a compressed or uncompressed point.
func ParsePub(b []byte) (Pt, bool) {
	switch {
	case len(b) == 65 && b[0] == 4:
		x, y := Int(b[1:33]), Int(b[33:])
		return Pt{x, y}, OnCurve(x, y)
	case len(b) == 33 && (b[0] == 2 || b[0] == 3):
		x := Int(b[1:])
		if x.Cmp(P) >= 0 {
			return Pt{}, false
		}
		r := mul(mul(x, x), x)
		r = mod(r.Add(r, big.NewInt(7)))
		e := new(big.Int).Add(P, big.NewInt(1))
		e.Rsh(e, 2)
		y := new(big.Int).Exp(r, e, P)
		if mul(y, y).Cmp(r) != 0 {
			return Pt{}, false
		}
		if byte(y.Bit(0)) != b[0]-2 {
			y = sub(new(big.Int), y)
		}
		return Pt{x, y}, true
	}
	return Pt{}, false
}

// RFC6979 yields the deterministic nonces for key d and hash; ok decides whether one is used.
func RFC6979(d *big.Int, hash, extra []byte, ok func(k *big.Int) bool) *big.Int {
	x := B32(d)
	z := Int(hash)
	if len(hash) > 32 {
		z = Int(hash[:32])
	}
	h1 := B32(z.Mod(z, N))
	v, k := bytes.Repeat([]byte{1}, 32), make([]byte, 32)
	mac := func(k []byte, p ...[]byte) []byte {
		m := hmac.New(sha256.New, k)
		for _, b := range p {
			m.Write(b)
		}
		return m.Sum(nil)
	}
	k = mac(k, v, []byte{0}, x, h1, extra)
	v = mac(k, v)
	k = mac(k, v, []byte{1}, x, h1, extra)
	v = mac(k, v)
	for {
		v = mac(k, v)
		c := Int(v)
		if c.Sign() > 0 && c.Cmp(N) < 0 && ok(c) {
			return c
		}
		k = mac(k, v, []byte{0})
		v = mac(k, v)
	}
}

// HalfN is N/2.
var HalfN = new(big.Int).Rsh(N, 1)

// Sign is deterministic low-S ECDSA.
func Sign(d *big.Int, hash []byte) (r, s *big.Int) {
	z := Int(hash)
	if len(hash) > 32 {
		z = Int(hash[:32])
	}
	RFC6979(d, hash, nil, func(k *big.Int) bool {
		p := Mul(G, k)
		r = new(big.Int).Mod(p.X, N)
		s = new(big.Int).Mul(r, d)
		s.Add(s, z).Mul(s, new(big.Int).ModInverse(k, N)).Mod(s, N)
		return r.Sign() != 0 && s.Sign() != 0
	})
	if s.Cmp(HalfN) > 0 {
		s = new(big.Int).Sub(N, s)
	}
	return
}

// Verify is textbook ECDSA verification.
func Verify(q Pt, hash []byte, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 || q.X == nil {
		return false
	}
	z := Int(hash)
	if len(hash) > 32 {
		z = Int(hash[:32])
	}
	w := new(big.Int).ModInverse(s, N)
	u1 := new(big.Int).Mul(z, w)
	u2 := new(big.Int).Mul(r, w)
	p := Add(Mul(G, u1.Mod(u1, N)), Mul(q, u2.Mod(u2, N)))
	return p.X != nil && new(big.Int).Mod(p.X, N).Cmp(r) == 0
}

// DER encodes a signature.
func DER(r, s *big.Int) []byte {
	i := func(x *big.Int) []byte {
		b := x.Bytes()
		if len(b) == 0 || b[0] >= 0x80 {
			b = append([]byte{0}, b...)
		}
		return append([]byte{2, byte(len(b))}, b...)
	}
	b := append(i(r), i(s)...)
	return append([]byte{0x30, byte(len(b))}, b...)
}

// ParseDER is strict.
func ParseDER(b []byte) (r, s *big.Int, ok bool) {
	i := func(b []byte) (*big.Int, []byte) {
		if len(b) < 3 || b[0] != 2 || b[1] == 0 || b[1] > 33 || int(b[1]) > len(b)-2 {
			return nil, nil
		}
		v := b[2 : 2+int(b[1])]
		if v[0] >= 0x80 || len(v) > 1 && v[0] == 0 && v[1] < 0x80 {
			return nil, nil
		}
		return Int(v), b[2+len(v):]
	}
	if len(b) < 8 || b[0] != 0x30 || int(b[1]) != len(b)-2 {
		return
	}
	r, rest := i(b[2:])
	if r == nil {
		return
	}
	s, rest = i(rest)
	return r, s, s != nil && len(rest) == 0
}
