package main

import (
	"bytes"
	"fmt"
	"math/big"
	"runtime/debug"
	"sync"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

func bi(n int64) *big.Int { return big.NewInt(n) }

func pt(x, y *big.Int, q oracle.Pt) string {
	if x == nil || y == nil || x.Cmp(q.X) != 0 || y.Cmp(q.Y) != 0 {
		return fmt.Sprintf("(%x,%x), should be (%x,%x)", x, y, q.X, q.Y)
	}
	return ""
}

func nonce(d *big.Int, hash []byte) *big.Int {
	return oracle.RFC6979(d, hash, nil, func(k *big.Int) bool { return true })
}

// sign is the s of the nonce k for key d, not normalised.
func sign(d, k *big.Int, hash []byte) (r, s *big.Int) {
	z := oracle.Int(hash)
	if len(hash) > 32 {
		z = oracle.Int(hash[:32])
	}
	r = new(big.Int).Mod(oracle.Mul(oracle.G, k).X, oracle.N)
	s = new(big.Int).Mul(r, d)
	s.Add(s, z).Mul(s, new(big.Int).ModInverse(k, oracle.N)).Mod(s, oracle.N)
	return
}

func low(s *big.Int) *big.Int {
	if s.Cmp(oracle.HalfN) > 0 {
		return new(big.Int).Sub(oracle.N, s)
	}
	return s
}

type session struct {
	d1, d2, t *big.Int // t nil: plain
	hash      []byte
	res       string
}

func mulN(a ...*big.Int) *big.Int {
	p := bi(1)
	for _, x := range a {
		p.Mul(p, x).Mod(p, oracle.N)
	}
	return p
}

// bad values no honest ciphertext has.
func outOfRange(nn *big.Int) []*big.Int {
	return []*big.Int{bi(0), bi(-1), new(big.Int).Set(nn), new(big.Int).Add(nn, bi(1)), new(big.Int).Neg(nn), new(big.Int).Lsh(nn, 3)}
}

func plain(s *session) string {
	p1, p2 := xcrypto.PrvKeyFromBytes(oracle.B32(s.d1)), xcrypto.PrvKeyFromBytes(oracle.B32(s.d2))
	a, b := xcrypto.NewEcdsaParty(p1), xcrypto.NewEcdsaParty(p2)
	Q := oracle.Mul(oracle.G, mulN(s.d1, s.d2))
	pa, pb := a.Phase1(p2.PubKey()), b.Phase1(p1.PubKey())
	if e := pt(pa.X, pa.Y, Q); e != "" {
		return "first party's joint key is " + e
	}
	if e := pt(pb.X, pb.Y, Q); e != "" {
		return "second party's joint key is " + e
	}
	keep := append([]byte{}, s.hash...)
	ca, na, ra := a.Phase2(s.hash)
	cb, nb, rb := b.Phase2(s.hash)
	if ca == nil || cb == nil {
		return "phase 2 failed"
	}
	k1, k2 := nonce(s.d1, s.hash), nonce(s.d2, s.hash)
	R := oracle.Mul(oracle.G, mulN(k1, k2))
	sa, sb := a.Phase3(rb), b.Phase3(ra)
	if sa.X.Cmp(sb.X) != 0 || sa.Y.Cmp(sb.Y) != 0 {
		return "the parties compute different nonces"
	}
	if e := pt(sa.X, sa.Y, R); e != "" {
		return "joint nonce is " + e
	}
	for i := 0; i < 2; i++ {
		ga, err := a.Phase4(cb, nb, sa)
		if err != nil {
			return "phase 4: " + err.Error()
		}
		gb, err := b.Phase4(ca, na, sb)
		if err != nil {
			return "phase 4: " + err.Error()
		}
		for j := 0; j < 2; j++ {
			fa, err := a.Phase5(sa, gb)
			if err != nil {
				return "phase 5: " + err.Error()
			}
			fb, err := b.Phase5(sb, ga)
			if err != nil {
				return "phase 5: " + err.Error()
			}
			r, w := sign(mulN(s.d1, s.d2), mulN(k1, k2), s.hash)
			want := oracle.DER(r, low(w))
			if !bytes.Equal(fa, want) || !bytes.Equal(fb, want) {
				return fmt.Sprintf("signatures %x and %x, should be %x", fa, fb, want)
			}
			if err := xcrypto.EcdsaVerify(pa, s.hash, fa); err != nil {
				return "does not verify: " + err.Error()
			}
		}
	}
	for _, x := range outOfRange(na.NN) {
		if g, err := b.Phase4(x, na, sb); err == nil {
			return fmt.Sprintf("phase 4 accepted the ciphertext %v of the other party: %v", x, g)
		}
		if g, err := a.Phase5(sa, x); err == nil {
			return fmt.Sprintf("phase 5 accepted the ciphertext %v of the other party: %x", x, g)
		}
	}
	if !bytes.Equal(keep, s.hash) || p1.D.Cmp(s.d1) != 0 || p2.D.Cmp(s.d2) != 0 {
		return "an argument was changed"
	}
	return ""
}

func scriptless(s *session) string {
	p1, p2 := xcrypto.PrvKeyFromBytes(oracle.B32(s.d1)), xcrypto.PrvKeyFromBytes(oracle.B32(s.d2))
	secret := new(big.Int).Set(s.t)
	a, b := xcrypto.NewEcdsaAlice(p1), xcrypto.NewEcdsaBob(p2, secret)
	Q := oracle.Mul(oracle.G, mulN(s.d1, s.d2))
	pa, pb := a.ScriptlessPhase1(p2.PubKey()), b.ScriptlessPhase1(p1.PubKey())
	if e := pt(pa.X, pa.Y, Q); e != "" {
		return "first party's joint key is " + e
	}
	if e := pt(pb.X, pb.Y, Q); e != "" {
		return "second party's joint key is " + e
	}
	ca, na, ra := a.ScriptlessPhase2(s.hash)
	cb, nb, rb := b.ScriptlessPhase2(s.hash)
	k1, k2 := nonce(s.d1, s.hash), nonce(s.d2, s.hash)
	R := oracle.Mul(oracle.G, mulN(k1, k2, s.t))
	sa, sb := a.ScriptlessPhase3(rb), b.ScriptlessPhase3(ra)
	if e := pt(sa.X, sa.Y, R); e != "" {
		return "first party's joint nonce is " + e
	}
	if e := pt(sb.X, sb.Y, R); e != "" {
		return "second party's joint nonce is " + e
	}
	ga, err := a.ScriptlessPhase4(cb, nb, sa)
	if err != nil {
		return "phase 4: " + err.Error()
	}
	gb, err := b.ScriptlessPhase4(ca, na, sb)
	if err != nil {
		return "phase 4: " + err.Error()
	}
	for j := 0; j < 2; j++ {
		fa, err := a.ScriptlessPhase5(sa, gb)
		if err != nil {
			return "phase 5: " + err.Error()
		}
		fb, err := b.ScriptlessPhase5(sb, ga)
		if err != nil {
			return "phase 5: " + err.Error()
		}
		der, err := b.ScriptlessPhase6(sb, fb)
		if err != nil {
			return "phase 6: " + err.Error()
		}
		if err := xcrypto.EcdsaVerify(pb, s.hash, der); err != nil {
			return "the final signature does not verify: " + err.Error()
		}
		r, w := sign(mulN(s.d1, s.d2), mulN(k1, k2, s.t), s.hash)
		if want := oracle.DER(r, low(w)); !bytes.Equal(der, want) {
			return fmt.Sprintf("signature %x, should be %x", der, want)
		}
		if err := xcrypto.EcdsaVerify(pb, s.hash, der); err != nil {
			return "does not verify: " + err.Error()
		}
		if x := a.ScriptlessPhase6(fa, fb); x == nil || x.Cmp(s.t) != 0 {
			return fmt.Sprintf("recovered %x, the secret is %x", x, s.t)
		}
		// The partial signature must not already be the final one.
		if s.t.Cmp(bi(1)) != 0 && fa.Cmp(fb) == 0 {
			return "the first party has the final signature without the secret"
		}
	}
	for _, x := range outOfRange(na.NN) {
		if g, err := b.ScriptlessPhase4(x, na, sb); err == nil {
			return fmt.Sprintf("phase 4 accepted the ciphertext %v of the other party: %v", x, g)
		}
		if g, err := a.ScriptlessPhase5(sa, x); err == nil {
			return fmt.Sprintf("phase 5 accepted the ciphertext %v of the other party: %v", x, g)
		}
	}
	for _, x := range outOfRange(nb.NN) {
		if g, err := b.ScriptlessPhase5(sb, x); err == nil {
			return fmt.Sprintf("phase 5 accepted the ciphertext %v of the other party: %v", x, g)
		}
	}
	if secret.Cmp(s.t) != 0 {
		return "the secret was changed"
	}
	return ""
}

func main() {
	h.Main("C24", func(t *h.T) {
		half := new(big.Int).Rsh(oracle.N, 1)
		key := func() *big.Int {
			var d *big.Int
			switch t.R.Intn(6) {
			case 0:
				d = bi(int64(1 + t.R.Intn(3)))
			case 1:
				d = new(big.Int).Sub(oracle.N, bi(int64(1+t.R.Intn(3))))
			case 2:
				d = new(big.Int).Rsh(oracle.Int(t.Bytes(32)), uint(t.R.Intn(200)))
			case 3:
				d = new(big.Int).Add(half, bi(int64(t.R.Intn(3)-1)))
			default:
				d = oracle.Int(t.Bytes(32))
			}
			d.Mod(d, oracle.N)
			if d.Sign() == 0 {
				d.SetInt64(1)
			}
			return d
		}
		msg := func() []byte {
			switch t.R.Intn(8) {
			case 0:
				return make([]byte, 32)
			case 1:
				return bytes.Repeat([]byte{0xff}, 32)
			case 2:
				return append(make([]byte, 4), t.Bytes(28)...)
			}
			return t.Bytes(32)
		}
		run := func(s *session) {
			defer func() {
				if r := recover(); r != nil {
					s.res = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
				}
			}()
			if s.t == nil {
				s.res = plain(s)
			} else {
				s.res = scriptless(s)
			}
		}
		for round := 0; round == 0 || t.Time(0.75); round++ {
			var ss []*session
			for i := 0; i < 12; i++ {
				s := &session{d1: key(), d2: key(), hash: msg()}
				if i == 2 {
					s.d2 = s.d1
				}
				if i%2 == 1 {
					s.t = key()
				}
				ss = append(ss, s)
			}
			var wg sync.WaitGroup
			for _, s := range ss {
				wg.Add(1)
				go func(s *session) { defer wg.Done(); run(s) }(s)
			}
			wg.Wait()
			for _, s := range ss {
				s := s
				name := "two-party"
				if s.t != nil {
					name = "scriptless"
				}
				t.Case(name, fmt.Sprintf("keys %x %x message %x secret %x", s.d1, s.d2, s.hash, s.t), func() string { return s.res })
			}
		}
		// The last phases alone, over every relation the algebra promises.
		for i := 0; i < t.N(200); i++ {
			secret, s2 := key(), key()
			s1 := mulN(secret, s2)
			t.Case("recover", fmt.Sprintf("partial %x final %x", s1, s2), func() string {
				a := xcrypto.NewEcdsaAlice(xcrypto.PrvKeyFromBytes([]byte{1}))
				k1, k2 := new(big.Int).Set(s1), new(big.Int).Set(s2)
				for j := 0; j < 2; j++ {
					if x := a.ScriptlessPhase6(k1, k2); x == nil || x.Cmp(secret) != 0 {
						return fmt.Sprintf("recovered %x, should be %x", x, secret)
					}
				}
				if k1.Cmp(s1) != 0 || k2.Cmp(s2) != 0 {
					return "an argument was changed"
				}
				return ""
			})
			r, s := key(), key()
			t.Case("final signature", fmt.Sprintf("r %x s %x", r, s), func() string {
				b := xcrypto.NewEcdsaBob(xcrypto.PrvKeyFromBytes([]byte{1}), bi(1))
				x, y := new(big.Int).Set(r), new(big.Int).Set(s)
				der, err := b.ScriptlessPhase6(secp256k1.NewScalar(x, bi(1)), y)
				if err != nil {
					return err.Error()
				}
				if want := oracle.DER(r, low(s)); !bytes.Equal(der, want) {
					return fmt.Sprintf("signature %x, should be %x", der, want)
				}
				if x.Cmp(r) != 0 || y.Cmp(s) != 0 {
					return "an argument was changed"
				}
				return ""
			})
		}
		t.Case("final signature", "s 0", func() string {
			b := xcrypto.NewEcdsaBob(xcrypto.PrvKeyFromBytes([]byte{1}), bi(1))
			if der, err := b.ScriptlessPhase6(secp256k1.NewScalar(bi(1), bi(1)), bi(0)); err == nil {
				return fmt.Sprintf("signature %x with S zero", der)
			}
			return ""
		})
	})
}
