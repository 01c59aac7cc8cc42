package main

import (
	"bytes"
	"crypto/ecdsa"
	"fmt"
	"math/big"

	"github.com/keyfuse/tokucore/xcrypto"
	xecdsa "github.com/keyfuse/tokucore/xcrypto/ecdsa"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

func bi(n int64) *big.Int { return big.NewInt(n) }

func pub(q oracle.Pt) *xcrypto.PubKey {
	p, err := xcrypto.PubKeyFromBytes(oracle.Uncompressed(q))
	if err != nil {
		panic(err)
	}
	return p
}

// verify compares the decision on a raw signature.
func verify(q oracle.Pt, hash, sig []byte) string {
	r, s, ok := oracle.ParseDER(sig)
	want := ok && oracle.Verify(q, hash, r, s)
	p := pub(q)
	keep := append([]byte{}, sig...)
	for i := 0; i < 2; i++ {
		if err := xcrypto.EcdsaVerify(p, hash, sig); (err == nil) != want {
			return fmt.Sprintf("accepted is %v, should be %v (%v); key %x", err == nil, want, err, oracle.Compressed(q))
		}
	}
	if !bytes.Equal(keep, sig) {
		return "the signature bytes were changed"
	}
	d := xcrypto.NewSignatureEcdsa()
	err := d.Deserialize(sig)
	if (err == nil) && !ok {
		return fmt.Sprintf("malformed encoding parsed to %v %v", d.R, d.S)
	}
	if ok {
		if err != nil {
			return "encoding not parsed: " + err.Error()
		}
		if d.R.Cmp(r) != 0 || d.S.Cmp(s) != 0 {
			return fmt.Sprintf("parsed to %x %x, should be %x %x", d.R, d.S, r, s)
		}
	}
	return ""
}

func main() {
	h.Main("C20", func(t *h.T) {
		key := func() *big.Int {
			var d *big.Int
			switch t.R.Intn(5) {
			case 0:
				d = bi(int64(1 + t.R.Intn(5)))
			case 1:
				d = new(big.Int).Sub(oracle.N, bi(int64(1+t.R.Intn(5))))
			case 2:
				d = new(big.Int).Rsh(oracle.Int(t.Bytes(32)), uint(t.R.Intn(200)))
			default:
				d = oracle.Int(t.Bytes(32))
			}
			d.Mod(d, oracle.N)
			if d.Sign() == 0 {
				d.SetInt64(1)
			}
			return d
		}
		digest := func() []byte {
			switch t.R.Intn(8) {
			case 0:
				return make([]byte, 32)
			case 1:
				return bytes.Repeat([]byte{0xff}, 32)
			case 2:
				return oracle.B32(new(big.Int).Add(oracle.N, bi(int64(t.R.Intn(5)-2))))
			case 3:
				return append(make([]byte, 32-1-t.R.Intn(3)), t.Bytes(3)...)[:32]
			}
			return t.Bytes(32)
		}
		for i := 0; i < t.N(350) && t.Time(0.4); i++ {
			d, hash := key(), digest()
			t.Case("sign", fmt.Sprintf("key %x digest %x", d, hash), func() string {
				prv := xcrypto.PrvKeyFromBytes(oracle.B32(d))
				r, s := oracle.Sign(d, hash)
				q := oracle.Mul(oracle.G, d)
				for j := 0; j < 2; j++ {
					if j == 1 {
						prv = xcrypto.PrvKeyFromBytes(d.Bytes())
					}
					kd, kh := new(big.Int).Set(prv.D), append([]byte{}, hash...)
					sig, err := xcrypto.EcdsaSign(prv, hash)
					if err != nil {
						return "cannot sign: " + err.Error()
					}
					if w := oracle.DER(r, s); !bytes.Equal(sig, w) {
						return fmt.Sprintf("signature %x, should be %x", sig, w)
					}
					if prv.D.Cmp(kd) != 0 || !bytes.Equal(hash, kh) {
						return "key or digest was changed"
					}
					if err := xcrypto.EcdsaVerify(prv.PubKey(), hash, sig); err != nil {
						return "own signature refused: " + err.Error()
					}
					gr, gs, err := xecdsa.Sign((*ecdsa.PrivateKey)(prv), hash)
					if err != nil || gr.Cmp(r) != 0 || gs.Cmp(s) != 0 {
						return fmt.Sprintf("pair %x %x (%v), should be %x %x", gr, gs, err, r, s)
					}
				}
				return verify(q, hash, oracle.DER(r, s))
			})
		}
		// pairs and encodings around a valid one
		for i := 0; i < t.N(600) && t.Time(0.8); i++ {
			d, hash := key(), digest()
			q := oracle.Mul(oracle.G, d)
			r, s := oracle.Sign(d, hash)
			var sig []byte
			what := ""
			n := oracle.N
			switch t.R.Intn(22) {
			case 0:
				s, what = new(big.Int).Sub(n, s), "high s"
			case 1:
				s, what = new(big.Int).Add(n, s), "s+n"
			case 2:
				r, what = new(big.Int).Add(n, r), "r+n"
			case 3:
				s, what = bi(0), "s=0"
			case 4:
				r, what = bi(0), "r=0"
			case 5:
				r, s, what = bi(0), bi(0), "0,0"
			case 6:
				s, what = new(big.Int).Set(n), "s=n"
			case 7:
				r, what = new(big.Int).Set(n), "r=n"
			case 8:
				s, what = new(big.Int).Neg(s), "-s"
			case 9:
				r, what = new(big.Int).Neg(r), "-r"
			case 10:
				r, s, what = s, r, "swapped"
			case 11:
				hash, what = t.Bytes(32), "other digest"
			case 12:
				q, what = oracle.Mul(oracle.G, key()), "other key"
			case 13:
				q, what = oracle.Neg(q), "negated key"
			case 14:
				r, what = new(big.Int).Sub(n, r), "n-r"
			case 15, 16, 17, 18, 19, 20:
				sig = oracle.DER(r, s)
				rl := int(sig[3])
				switch t.R.Intn(12) {
				case 0:
					sig = append(sig, t.Bytes(1+t.R.Intn(3))...)
				case 1:
					sig = sig[:t.R.Intn(len(sig))]
				case 2:
					sig[1]++
					sig = append(sig, 0)
				case 3: // third element inside
					sig[1] += 3
					sig = append(sig, 2, 1, 1)
				case 4: // long-form length
					sig = append([]byte{0x30, 0x81}, sig[1:]...)
				case 5: // superfluous zero before r
					sig = append([]byte{0x30, sig[1] + 1, 2, byte(rl) + 1, 0}, sig[4:]...)
				case 6: // superfluous zero before s
					x := append([]byte{}, sig[:4+rl]...)
					x = append(x, 2, sig[5+rl]+1, 0)
					sig = append(x, sig[6+rl:]...)
					sig[1]++
				case 7:
					sig[t.R.Intn(6)] ^= 1 << uint(t.R.Intn(8))
				case 8:
					sig[4+rl] = 3
				case 9:
					sig = append([]byte{0x30, 0x80}, append(sig[2:], 0, 0)...)
				case 10: // sign bit without the padding byte
					big1 := oracle.B32(new(big.Int).Sub(n, bi(5)))
					sig = append(append([]byte{0x30, 68, 2, 32}, big1...), append([]byte{2, 32}, oracle.B32(s)...)...)
				default:
					sig = t.Bytes(t.R.Intn(75))
				}
				what = "encoding"
			default:
				sig, what = [][]byte{nil, {}, {0x30}, {0x30, 0}, {0x30, 2, 2, 0}, {0x30, 4, 2, 0, 2, 0}, {0x30, 6, 2, 1, 1, 2, 1, 1}, {0x30, 0x84, 0xff, 0xff, 0xff, 0xff}, {2, 1, 1}, {0x30, 0x84, 0x80, 0, 0, 0, 2, 1}}[t.R.Intn(10)], "short"
			}
			if sig == nil && what != "short" {
				sig = oracle.DER(r, s)
			}
			t.Case("verify", fmt.Sprintf("%s: key %x digest %x signature %x", what, oracle.Compressed(q), hash, sig), func() string {
				if m := verify(q, hash, sig); m != "" {
					return m
				}
				if what != "encoding" && what != "short" && r.Sign() >= 0 && s.Sign() >= 0 {
					if g, w := xecdsa.Verify((*ecdsa.PublicKey)(pub(q)), hash, r, s), oracle.Verify(q, hash, r, s); g != w {
						return fmt.Sprintf("pair accepted is %v, should be %v", g, w)
					}
				}
				return ""
			})
		}
		// nonce points whose x is at or above the order: r is x minus n
		for k, found := int64(0), 0; found < 6; k++ {
			x := new(big.Int).Add(oracle.N, bi(k))
			R, ok := oracle.ParsePub(append([]byte{2}, oracle.B32(x)...))
			if !ok || k == 0 {
				continue
			}
			found++
			s, hash := key(), digest()
			r := bi(k)
			// q = (sR - eG)/r
			e := new(big.Int).Mod(oracle.Int(hash), oracle.N)
			q := oracle.Add(oracle.Mul(R, s), oracle.Neg(oracle.Mul(oracle.G, e)))
			q = oracle.Mul(q, new(big.Int).ModInverse(r, oracle.N))
			for _, rr := range []*big.Int{r, x, bi(k + 1)} {
				sig := oracle.DER(rr, s)
				t.Case("large x", fmt.Sprintf("key %x digest %x signature %x", oracle.Compressed(q), hash, sig), func() string { return verify(q, hash, sig) })
			}
		}
		// the DER form by itself
		for i := 0; i < t.N(400); i++ {
			g := func() *big.Int {
				switch t.R.Intn(4) {
				case 0:
					return bi(int64(t.R.Intn(260)))
				case 1:
					return new(big.Int).Sub(oracle.N, bi(int64(t.R.Intn(3))))
				}
				return new(big.Int).Rsh(oracle.Int(t.Bytes(32)), uint(t.R.Intn(256)))
			}
			r, s := g(), g()
			t.Case("der", fmt.Sprintf("%x %x", r, s), func() string {
				x := xcrypto.NewSignatureEcdsa()
				x.R, x.S = new(big.Int).Set(r), new(big.Int).Set(s)
				b, err := x.Serialize()
				if err != nil || !bytes.Equal(b, oracle.DER(r, s)) {
					return fmt.Sprintf("encodes as %x (%v), should be %x", b, err, oracle.DER(r, s))
				}
				y := xcrypto.NewSignatureEcdsa()
				if err := y.Deserialize(b); err != nil || y.R.Cmp(r) != 0 || y.S.Cmp(s) != 0 {
					return fmt.Sprintf("parses back as %x %x (%v)", y.R, y.S, err)
				}
				return ""
			})
		}
		// any bytes
		for i := 0; i < t.N(3000) && t.Time(0.9); i++ {
			b := t.Bytes(t.R.Intn(80))
			if len(b) > 3 && t.R.Intn(2) == 0 {
				b[0], b[1], b[2] = 0x30, byte(len(b)-2), 2
			}
			t.Case("any bytes", fmt.Sprintf("%x", b), func() string {
				_, _, ok := oracle.ParseDER(b)
				if err := xcrypto.NewSignatureEcdsa().Deserialize(b); err == nil && !ok {
					return "malformed encoding parsed"
				}
				return ""
			})
		}
		toy(t, oracle.NewToy(211, true))
		toy(t, oracle.NewToy(830, false))
	})
}

// toy runs the same code on a curve so small that every signature can be tried
// and a nonce point's x is often not below the order.
func toy(t *h.T, c *oracle.Toy) {
	p, n := c.P.Int64(), c.N.Int64()
	prv := func(d int64) *ecdsa.PrivateKey {
		Q := c.At(d)
		return &ecdsa.PrivateKey{PublicKey: ecdsa.PublicKey{Curve: c, X: Q.X, Y: Q.Y}, D: bi(d)}
	}
	bits := c.N.BitLen()
	num := func(hash []byte) int64 {
		z := oracle.Int(hash)
		return z.Rsh(z, uint(8*len(hash)-bits)).Int64()
	}
	// Only where the code under test works over any curve: no hash gives a
	// signature for another key.
	usable := func() (ok bool) {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		good := 0
		for d := int64(1); d < 40; d++ {
			m := t.Bytes(32)
			r, s, err := xecdsa.Sign(prv(d), m)
			if err == nil && r.IsInt64() && c.EcdsaOK(d, num(m), r.Int64(), s.Int64()) {
				good++
			}
		}
		return good > 20
	}
	if !usable() {
		return
	}
	for d := int64(1); d < n; d++ {
		m := t.Bytes(32)
		t.Case("sign on a small curve", fmt.Sprintf("field %d order %d key %d hash %x", p, n, d, m), func() string {
			r, s, err := xecdsa.Sign(prv(d), m)
			if err != nil {
				return ""
			}
			if !c.EcdsaOK(d, num(m), r.Int64(), s.Int64()) {
				return fmt.Sprintf("signature %v %v is not valid", r, s)
			}
			if 2*s.Int64() > n {
				return fmt.Sprintf("S %v is in the upper half", s)
			}
			return ""
		})
	}
	for i := 0; i < t.N(2); i++ {
		d := 1 + int64(t.R.Intn(int(n-1)))
		m := t.Bytes(32)
		for r := int64(0); r < n+20; r++ {
			for s := int64(0); s < n+20; s++ {
				if r < n-4 && r > 20 && s < n-4 && s > 20 && (r+s+int64(i))%8 != 0 {
					continue
				}
				if got, want := xecdsa.Verify(&prv(d).PublicKey, m, bi(r), bi(s)), c.EcdsaOK(d, num(m), r, s); got != want {
					t.Case("verify on a small curve", fmt.Sprintf("field %d order %d key %d hash %x r %d s %d", p, n, d, m, r, s), func() string {
						return fmt.Sprintf("accepted is %v, should be %v", got, want)
					})
				}
			}
		}
		t.Case("verify on a small curve", fmt.Sprintf("field %d order %d key %d hash %x", p, n, d, m), func() string { return "" })
	}
}
