package main

import (
	"fmt"
	"math/big"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

func bi(n int64) *big.Int { return big.NewInt(n) }

func xy(p oracle.Pt) (*big.Int, *big.Int) {
	if p.X == nil {
		return new(big.Int), new(big.Int)
	}
	return new(big.Int).Set(p.X), new(big.Int).Set(p.Y)
}

func same(x, y *big.Int, p oracle.Pt) string {
	wx, wy := xy(p)
	if x == nil || y == nil {
		return "nil coordinate"
	}
	if x.Cmp(wx) != 0 || y.Cmp(wy) != 0 {
		return fmt.Sprintf("got (%x, %x), should be (%x, %x)", x, y, wx, wy)
	}
	return ""
}

func main() {
	h.Main("C21", func(t *h.T) {
		c := secp256k1.SECP256K1()
		scalar := func() *big.Int {
			switch t.R.Intn(6) {
			case 0:
				return bi(int64(t.R.Intn(20)))
			case 1:
				return new(big.Int).Sub(oracle.N, bi(int64(t.R.Intn(8)-4)))
			case 2:
				return new(big.Int).Lsh(bi(1), uint(t.R.Intn(256)))
			case 3:
				return oracle.Int(t.Bytes(t.R.Intn(33)))
			}
			return oracle.Int(t.Bytes(32))
		}
		point := func() oracle.Pt {
			switch t.R.Intn(8) {
			case 0:
				return oracle.Pt{}
			case 1:
				return oracle.Mul(oracle.G, bi(int64(t.R.Intn(6))))
			case 2:
				return oracle.Neg(oracle.Mul(oracle.G, bi(int64(t.R.Intn(6)))))
			}
			return oracle.Mul(oracle.G, new(big.Int).Mod(scalar(), oracle.N))
		}
		args := func(before string, xs ...*big.Int) string {
			if now := fmt.Sprintf("%x", xs); now != before {
				return "arguments changed from " + before + " to " + now
			}
			return ""
		}
		add := func(p, q oracle.Pt) {
			in := fmt.Sprintf("P=(%x,%x) Q=(%x,%x)", p.X, p.Y, q.X, q.Y)
			want := oracle.Add(p, q)
			x1, y1 := xy(p)
			x2, y2 := xy(q)
			b := fmt.Sprintf("%x", []*big.Int{x1, y1, x2, y2})
			t.Case("addition", in, func() string {
				for i := 0; i < 2; i++ {
					x, y := c.Add(x1, y1, x2, y2)
					if s := same(x, y, want); s != "" {
						return s
					}
					if s := args(b, x1, y1, x2, y2); s != "" {
						return s
					}
					// The result is the caller's own.
					x.SetInt64(5)
					y.SetInt64(6)
					if s := args(b, x1, y1, x2, y2); s != "" {
						return "after writing to the result: " + s
					}
				}
				s := secp256k1.NewScalar(x1, y1).Add(c, secp256k1.NewScalar(x2, y2))
				if e := same(s.X, s.Y, want); e != "" {
					return "Scalar.Add: " + e
				}
				if s := args(b, x1, y1, x2, y2); s != "" {
					return "Scalar.Add: " + s
				}
				if p.X != nil && q.X != nil {
					a, e1 := xcrypto.PubKeyFromBytes(oracle.Uncompressed(p))
					d, e2 := xcrypto.PubKeyFromBytes(oracle.Uncompressed(q))
					if e1 != nil || e2 != nil {
						return "point not parsed"
					}
					r := a.Add(d)
					if e := same(r.X, r.Y, want); e != "" {
						return "PubKey.Add: " + e
					}
				}
				return ""
			})
			// The same pointers on both sides.
			if oracle.Eq(p, q) {
				t.Case("addition of a point to itself", in, func() string {
					x, y := c.Add(x1, y1, x1, y1)
					if s := same(x, y, want); s != "" {
						return s
					}
					return args(b, x1, y1, x2, y2)
				})
			}
		}
		double := func(p oracle.Pt) {
			in := fmt.Sprintf("P=(%x,%x)", p.X, p.Y)
			x1, y1 := xy(p)
			b := fmt.Sprintf("%x", []*big.Int{x1, y1})
			t.Case("doubling", in, func() string {
				x, y := c.Double(x1, y1)
				if s := same(x, y, oracle.Add(p, p)); s != "" {
					return s
				}
				return args(b, x1, y1)
			})
		}
		mult := func(p oracle.Pt, k []byte) {
			in := fmt.Sprintf("P=(%x,%x) k=%x", p.X, p.Y, k)
			x1, y1 := xy(p)
			b := fmt.Sprintf("%x", []*big.Int{x1, y1})
			kk := append([]byte{}, k...)
			want := oracle.Mul(p, oracle.Int(k))
			t.Case("scalar multiplication", in, func() string {
				x, y := c.ScalarMult(x1, y1, kk)
				if s := same(x, y, want); s != "" {
					return s
				}
				if string(kk) != string(k) {
					return fmt.Sprintf("the scalar was changed to %x", kk)
				}
				return args(b, x1, y1)
			})
			if p.X != nil && p.X.Cmp(oracle.Gx) == 0 && p.Y.Cmp(oracle.Gy) == 0 {
				t.Case("base point multiplication", in, func() string {
					x, y := c.ScalarBaseMult(kk)
					if s := same(x, y, want); s != "" {
						return s
					}
					if string(kk) != string(k) {
						return fmt.Sprintf("the scalar was changed to %x", kk)
					}
					pr := c.Params()
					if pr.Gx.Cmp(oracle.Gx) != 0 || pr.Gy.Cmp(oracle.Gy) != 0 || pr.P.Cmp(oracle.P) != 0 || pr.N.Cmp(oracle.N) != 0 || pr.B.Cmp(bi(7)) != 0 || pr.BitSize != 256 {
						return "the curve parameters changed"
					}
					return ""
				})
			}
		}
		// Every pair of small multiples, including equal, opposite and infinity.
		for i := int64(-4); i <= 4; i++ {
			p := oracle.Mul(oracle.G, new(big.Int).Mod(bi(i), oracle.N))
			double(p)
			for j := int64(-4); j <= 4; j++ {
				add(p, oracle.Mul(oracle.G, new(big.Int).Mod(bi(j), oracle.N)))
			}
		}
		// Points with the same y (x times a cube root of one), and with small coordinates.
		beta := new(big.Int)
		for e := bi(2); ; e.Add(e, bi(1)) {
			x := new(big.Int).Div(new(big.Int).Sub(oracle.P, bi(1)), bi(3))
			beta.Exp(e, x, oracle.P)
			if beta.Cmp(bi(1)) != 0 {
				break
			}
		}
		for i := 0; i < 20; i++ {
			p := point()
			if p.X == nil {
				continue
			}
			x := new(big.Int).Mul(p.X, beta)
			q := oracle.Pt{X: x.Mod(x, oracle.P), Y: p.Y}
			add(p, q)
			add(p, oracle.Neg(q))
			x = new(big.Int).Mul(q.X, beta)
			add(q, oracle.Pt{X: x.Mod(x, oracle.P), Y: p.Y})
		}
		for x, n := int64(0), 0; n < 12; x++ {
			for _, pre := range []byte{2, 3} {
				if p, ok := oracle.ParsePub(append([]byte{pre}, oracle.B32(bi(x))...)); ok {
					add(p, oracle.G)
					double(p)
					mult(p, oracle.B32(scalar()))
					n++
				}
				if p, ok := oracle.ParsePub(append([]byte{pre}, oracle.B32(new(big.Int).Sub(oracle.P, bi(x+1)))...)); ok {
					add(p, oracle.G)
					double(p)
				}
			}
		}
		// Boundary scalars of every length.
		for _, k := range [][]byte{nil, {}, {0}, {0, 0}, {1}, {0, 1}, {2}, {3}, {255}, {1, 0}, oracle.B32(oracle.N), oracle.B32(new(big.Int).Sub(oracle.N, bi(1))), oracle.B32(new(big.Int).Add(oracle.N, bi(1))), oracle.B32(new(big.Int).Sub(oracle.N, bi(2))), append([]byte{0}, oracle.B32(bi(7))...), append([]byte{1}, oracle.B32(bi(7))...), append([]byte{1}, t.Bytes(32)...), t.Bytes(40)} {
			mult(oracle.G, k)
			mult(oracle.Pt{}, k)
			mult(oracle.Mul(oracle.G, bi(5)), k)
		}
		for i := 0; i < 256; i += 7 {
			mult(oracle.G, oracle.B32(new(big.Int).Lsh(bi(1), uint(i))))
		}
		for i := 0; i < t.N(150) && t.Time(0.9); i++ {
			p, q := point(), point()
			add(p, q)
			add(p, p)
			add(p, oracle.Neg(p))
			double(p)
			if i%2 == 0 {
				k := scalar().Bytes()
				if t.R.Intn(3) == 0 {
					k = append(make([]byte, t.R.Intn(3)), k...)
				}
				mult(p, k)
				mult(oracle.G, k)
			}
		}
	})
}
