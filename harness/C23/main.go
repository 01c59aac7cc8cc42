package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"fmt"
	"math/big"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/schnorr"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

func bi(n int64) *big.Int { return big.NewInt(n) }

func main() {
	h.Main("C23", func(t *h.T) {
		pub := func(q oracle.Pt) *xcrypto.PubKey {
			p, err := xcrypto.PubKeyFromBytes(oracle.Uncompressed(q))
			if err != nil {
				panic(err)
			}
			return p
		}
		key := func() *big.Int {
			var d *big.Int
			switch t.R.Intn(5) {
			case 0:
				d = bi(int64(1 + t.R.Intn(5)))
			case 1:
				d = new(big.Int).Sub(oracle.N, bi(int64(1+t.R.Intn(5))))
			case 2:
				d = new(big.Int).Rsh(oracle.Int(t.Bytes(32)), uint(t.R.Intn(200)))
			default:
				d = oracle.Int(t.Bytes(32))
			}
			d.Mod(d, oracle.N)
			if d.Sign() == 0 {
				d.SetInt64(1)
			}
			return d
		}
		msg := func() []byte {
			switch t.R.Intn(8) {
			case 0:
				return make([]byte, 32)
			case 1:
				return bytes.Repeat([]byte{0xff}, 32)
			case 2:
				return t.Bytes(t.R.Intn(80))
			}
			return t.Bytes(32)
		}
		verify := func(kind string, q oracle.Pt, m, sig []byte) {
			want := oracle.SchnorrVerify(q, m, sig)
			in := fmt.Sprintf("%s: key %x message %x signature %x", kind, oracle.Compressed(q), m, sig)
			t.Case("verify", in, func() string {
				p := pub(q)
				keepS, keepM := append([]byte{}, sig...), append([]byte{}, m...)
				for i := 0; i < 2; i++ {
					if err := xcrypto.SchnorrVerify(p, m, sig); (err == nil) != want {
						return fmt.Sprintf("accepted is %v, should be %v (%v)", err == nil, want, err)
					}
				}
				if !bytes.Equal(sig, keepS) || !bytes.Equal(m, keepM) || p.X.Cmp(q.X) != 0 || p.Y.Cmp(q.Y) != 0 {
					return "an argument was changed"
				}
				s := xcrypto.NewSignatureSchnorr()
				err := s.Deserialize(sig)
				if (err == nil) != (len(sig) == 64) {
					return fmt.Sprintf("deserialized is %v for %d bytes", err == nil, len(sig))
				}
				if err == nil {
					if s.R.Cmp(oracle.Int(sig[:32])) != 0 || s.S.Cmp(oracle.Int(sig[32:])) != 0 {
						return "deserialized to another pair"
					}
					b, err := s.Serialize()
					if err != nil || !bytes.Equal(b, sig) {
						return fmt.Sprintf("serialized again to %x (%v)", b, err)
					}
					if schnorr.Verify((*ecdsa.PublicKey)(p), m, s.R, s.S) != want {
						return "schnorr.Verify decides otherwise"
					}
				}
				return ""
			})
		}
		// The nonce equation chosen so that every other rule holds: r with a
		// non-residue y, infinite nonce, r equal to x plus nothing.
		chal := func(r []byte, q oracle.Pt, m []byte) *big.Int {
			e := sha256.Sum256(append(append(append([]byte{}, r...), oracle.Compressed(q)...), m...))
			x := oracle.Int(e[:])
			return x.Mod(x, oracle.N)
		}
		for i := 0; i < t.N(60) && t.Time(0.6); i++ {
			d, m := key(), msg()
			q := oracle.Mul(oracle.G, d)
			r, s := oracle.SchnorrSign(d, m)
			want := append(oracle.B32(r), oracle.B32(s)...)
			in := fmt.Sprintf("key %x message %x", d, m)
			t.Case("sign", in, func() string {
				pk := xcrypto.PrvKeyFromBytes(oracle.B32(d))
				keep := append([]byte{}, m...)
				for j := 0; j < 2; j++ {
					got, err := xcrypto.SchnorrSign(pk, m)
					if err != nil {
						return err.Error()
					}
					if !bytes.Equal(got, want) {
						return fmt.Sprintf("signature %x, should be %x", got, want)
					}
					if err := xcrypto.SchnorrVerify(pk.PubKey(), m, got); err != nil {
						return "own signature refused: " + err.Error()
					}
					a, b, err := schnorr.Sign((*ecdsa.PrivateKey)(pk), m)
					if err != nil || a.Cmp(r) != 0 || b.Cmp(s) != 0 {
						return fmt.Sprintf("schnorr.Sign gave %x %x (%v)", a, b, err)
					}
					x := xcrypto.SignatureSchnorr{R: a, S: b}
					if w, err := x.Serialize(); err != nil || !bytes.Equal(w, want) {
						return fmt.Sprintf("Serialize gave %x (%v)", w, err)
					}
				}
				if !bytes.Equal(m, keep) || pk.D.Cmp(d) != 0 {
					return "an argument was changed"
				}
				return ""
			})
			verify("valid", q, m, want)
			verify("other key", oracle.Mul(oracle.G, key()), m, want)
			verify("negated key", oracle.Neg(q), m, want)
			if len(m) > 0 {
				w := append([]byte{}, m...)
				w[t.R.Intn(len(w))] ^= byte(1 << uint(t.R.Intn(8)))
				verify("other message", q, w, want)
			}
			w := append([]byte{}, want...)
			w[t.R.Intn(64)] ^= byte(1 << uint(t.R.Intn(8)))
			verify("changed", q, m, w)
			verify("negated s", q, m, append(oracle.B32(r), oracle.B32(new(big.Int).Mod(new(big.Int).Neg(s), oracle.N))...))
			// s and r with their modulus added, where that fits.
			if s2 := new(big.Int).Add(s, oracle.N); s2.BitLen() <= 256 {
				verify("s plus order", q, m, append(oracle.B32(r), oracle.B32(s2)...))
			}
			verify("truncated", q, m, want[:63])
			verify("extended", q, m, append(append([]byte{}, want...), 0))
			verify("doubled", q, m, append(append([]byte{}, want...), want...))
			// A nonce whose y is not a residue, satisfying the equation otherwise.
			k := key()
			R := oracle.Mul(oracle.G, k)
			e := chal(oracle.B32(R.X), q, m)
			sk := new(big.Int).Mul(e, d)
			sk.Add(sk, k).Mod(sk, oracle.N)
			verify(fmt.Sprintf("nonce with jacobi %d", big.Jacobi(R.Y, oracle.P)), q, m, append(oracle.B32(R.X), oracle.B32(sk)...))
			sn := new(big.Int).Mul(e, d)
			sn.Sub(sn, k).Mod(sn, oracle.N)
			verify("the opposite nonce", q, m, append(oracle.B32(R.X), oracle.B32(sn)...))
			// Infinite nonce: s = e d for any r.
			for _, rr := range []*big.Int{bi(0), bi(1), oracle.Int(t.Bytes(31)), R.X, r} {
				e := chal(oracle.B32(rr), q, m)
				si := new(big.Int).Mul(e, d)
				si.Mod(si, oracle.N)
				verify("infinite nonce", q, m, append(oracle.B32(rr), oracle.B32(si)...))
			}
			// The challenge without one of its parts.
			e2 := sha256.Sum256(append(oracle.B32(R.X), m...))
			s3 := new(big.Int).Mul(oracle.Int(e2[:]), d)
			s3.Add(s3, k).Mod(s3, oracle.N)
			verify("challenge without key", q, m, append(oracle.B32(R.X), oracle.B32(s3)...))
		}
		// r just above the field size whose reduction satisfies everything else:
		// the nonce point with x = r - p, challenge over the bytes given.
		d := bi(7)
		q := oracle.Mul(oracle.G, d)
		m := t.Bytes(32)
		for _, rr := range []*big.Int{oracle.P, new(big.Int).Add(oracle.P, bi(1)), new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), bi(1)), new(big.Int).Sub(oracle.P, bi(1))} {
			for _, ss := range []*big.Int{bi(0), bi(1), oracle.N, new(big.Int).Sub(oracle.N, bi(1)), new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), bi(1))} {
				verify("boundary", q, m, append(oracle.B32(rr), oracle.B32(ss)...))
			}
		}
		for n := 0; n <= 70; n++ {
			verify("length", q, m, t.Bytes(n))
			verify("length", q, m, make([]byte, n))
		}
		verify("nil", q, m, nil)
		toy(t, oracle.NewToy(211, true))
		toy(t, oracle.NewToy(830, false))
	})
}

// toy runs the same code on a curve so small that every signature can be tried.
func toy(t *h.T, c *oracle.Toy) {
	p, n := c.P.Int64(), c.N.Int64()
	pub := func(q int64) *ecdsa.PublicKey {
		Q := c.At(q)
		return &ecdsa.PublicKey{Curve: c, X: Q.X, Y: Q.Y}
	}
	// Only where the code under test works over any curve.
	usable := func() (ok bool) {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		for q := int64(1); q < 40; q++ {
			m := oracle.B32(bi(q))
			for k := int64(1); k < 3; k++ {
				R := c.At(k)
				if big.Jacobi(R.Y, c.P) != 1 {
					R = c.At(-k)
				}
				r := R.X.Int64()
				s := (c.Index(R.X, R.Y) + c.Chal(q, m, r)*q) % n
				if !schnorr.Verify(pub(q), m, bi(r), bi(s)) {
					return false
				}
			}
		}
		return true
	}
	if !usable() {
		return
	}
	for i := 0; i < t.N(4); i++ {
		q := 1 + int64(t.R.Intn(int(n-1)))
		m := t.Bytes(32)
		for r := int64(0); r < p+40; r++ {
			for s := int64(0); s < n+40; s++ {
				if r < p-4 && r > 40 && s < n-4 && s > 40 && (r+s+int64(i))%4 != 0 {
					continue
				}
				if got, want := schnorr.Verify(pub(q), m, bi(r), bi(s)), c.SchnorrOK(q, m, r, s); got != want {
					t.Case("verify on a small curve", fmt.Sprintf("field %d order %d key %d message %x r %d s %d", p, n, q, m, r, s), func() string {
						return fmt.Sprintf("accepted is %v, should be %v", got, want)
					})
				}
			}
		}
		t.Case("verify on a small curve", fmt.Sprintf("field %d order %d key %d message %x", p, n, q, m), func() string { return "" })
	}
	for d := int64(1); d < n; d++ {
		m := t.Bytes(32)
		t.Case("sign on a small curve", fmt.Sprintf("field %d order %d key %d message %x", p, n, d, m), func() string {
			pk := &ecdsa.PrivateKey{PublicKey: *pub(d), D: bi(d)}
			r, s, err := schnorr.Sign(pk, m)
			if err != nil {
				if h := oracle.Int(sum(append(oracle.B32(bi(d)), m...))); h.Mod(h, c.N).Sign() == 0 {
					return ""
				}
				return err.Error()
			}
			if !c.SchnorrOK(d, m, r.Int64(), s.Int64()) {
				return fmt.Sprintf("signature %v %v is not valid", r, s)
			}
			return ""
		})
	}
}

func sum(b []byte) []byte { s := sha256.Sum256(b); return s[:] }
