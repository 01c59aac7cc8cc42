package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

func bi(n int64) *big.Int { return big.NewInt(n) }

func pt(x, y *big.Int, q oracle.Pt) string {
	if x == nil || y == nil || x.Cmp(q.X) != 0 || y.Cmp(q.Y) != 0 {
		return fmt.Sprintf("(%x,%x), should be (%x,%x)", x, y, q.X, q.Y)
	}
	return ""
}

func run(ds []*big.Int, m []byte, again bool) string {
	n := len(ds)
	keep := append([]byte{}, m...)
	var prv []*xcrypto.PrvKey
	var ps []*xcrypto.SchnorrParty
	var pubs []*xcrypto.PubKey
	Q := oracle.Pt{}
	for _, d := range ds {
		p := xcrypto.PrvKeyFromBytes(oracle.B32(d))
		s, err := xcrypto.NewSchnorrParty(p)
		if err != nil {
			return err.Error()
		}
		prv, ps, pubs = append(prv, p), append(ps, s), append(pubs, p.PubKey())
		Q = oracle.Add(Q, oracle.Mul(oracle.G, d))
	}
	if Q.X == nil {
		return ""
	}
	times := 1
	if again {
		times = 2
	}
	agg := make([]*xcrypto.PubKey, n)
	for i := range ps {
		for j := 0; j < times; j++ {
			// Every partial sum must stay off infinity for a key to exist.
			var o *xcrypto.PubKey
			sum := oracle.Mul(oracle.G, ds[i])
			a := (*xcrypto.PubKey)(nil)
			for l, p := range pubs {
				if l == i {
					continue
				}
				if o == nil {
					o = p
					a = ps[i].Phase1(p)
				} else {
					a = a.Add(p)
				}
				sum = oracle.Add(sum, oracle.Mul(oracle.G, ds[l]))
			}
			agg[i] = a
			if e := pt(a.X, a.Y, Q); e != "" {
				return fmt.Sprintf("aggregate key of party %d is %s", i, e)
			}
		}
	}
	rs := make([]*secp256k1.Scalar, n)
	R := oracle.Pt{}
	for i := range ps {
		for j := 0; j < times; j++ {
			rs[i] = ps[i].Phase2(m)
		}
		k := oracle.HashInt(oracle.B32(ds[i]), m)
		if e := pt(rs[i].X, rs[i].Y, oracle.Mul(oracle.G, k)); e != "" {
			return fmt.Sprintf("nonce point of party %d is %s", i, e)
		}
		R = oracle.Add(R, oracle.Mul(oracle.G, k))
	}
	if R.X == nil {
		return ""
	}
	sh := make([]*secp256k1.Scalar, n)
	for i := range ps {
		for j := 0; j < times; j++ {
			first := true
			for l := range rs {
				if l == i {
					continue
				}
				if first {
					sh[i] = ps[i].Phase3(rs[l])
					first = false
				} else {
					sh[i] = sh[i].Add(secp256k1.SECP256K1(), rs[l])
				}
			}
			if e := pt(sh[i].X, sh[i].Y, R); e != "" {
				return fmt.Sprintf("aggregate nonce of party %d is %s", i, e)
			}
		}
	}
	var sigs [][]byte
	for i := range ps {
		s, err := ps[i].Phase4(agg[i], sh[i])
		if err != nil {
			return "phase 4: " + err.Error()
		}
		if again {
			for j := 0; j < 2; j++ {
				s2, err := ps[i].Phase4(agg[i], sh[i])
				if err != nil || !bytes.Equal(s, s2) {
					return fmt.Sprintf("phase 4 of party %d gave %x and then %x (%v)", i, s, s2, err)
				}
			}
		}
		sigs = append(sigs, s)
	}
	var final []byte
	for i := range ps {
		for j := 0; j < times; j++ {
			f, err := ps[i].Phase5(sh[i], sigs...)
			if err != nil {
				return "phase 5: " + err.Error()
			}
			if final == nil {
				final = f
			}
			if !bytes.Equal(f, final) {
				return fmt.Sprintf("final signatures differ: %x and %x", final, f)
			}
		}
	}
	if !oracle.SchnorrVerify(Q, m, final) {
		return fmt.Sprintf("final signature %x does not verify under the aggregate key %x (nonce jacobi %d)", final, oracle.Compressed(Q), big.Jacobi(R.Y, oracle.P))
	}
	if err := xcrypto.SchnorrVerify(agg[0], m, final); err != nil {
		return fmt.Sprintf("final signature %x refused under the aggregate key: %v", final, err)
	}
	if again {
		// A second message with the same parties, in the same order.
		for i := range ps {
			if r := ps[i].Phase2(m); r.X.Cmp(rs[i].X) != 0 {
				return "phase 2 repeated at the end gives another nonce"
			}
			s, err := ps[i].Phase4(agg[i], sh[i])
			if err != nil || !bytes.Equal(s, sigs[i]) {
				return fmt.Sprintf("phase 4 repeated at the end gave %x, before %x (%v)", s, sigs[i], err)
			}
		}
	}
	if !bytes.Equal(m, keep) {
		return "the message was changed"
	}
	for i := range prv {
		if prv[i].D.Cmp(ds[i]) != 0 {
			return "a private key was changed"
		}
		if e := pt(pubs[i].X, pubs[i].Y, oracle.Mul(oracle.G, ds[i])); e != "" {
			return "a public key was changed: " + e
		}
	}
	return ""
}

func main() {
	h.Main("C25", func(t *h.T) {
		key := func() *big.Int {
			var d *big.Int
			switch t.R.Intn(6) {
			case 0:
				d = bi(int64(1 + t.R.Intn(3)))
			case 1:
				d = new(big.Int).Sub(oracle.N, bi(int64(1+t.R.Intn(3))))
			case 2:
				d = new(big.Int).Rsh(oracle.Int(t.Bytes(32)), uint(t.R.Intn(200)))
			default:
				d = oracle.Int(t.Bytes(32))
			}
			d.Mod(d, oracle.N)
			if d.Sign() == 0 {
				d.SetInt64(1)
			}
			return d
		}
		for i := 0; i < t.N(160) && t.Time(0.8); i++ {
			n := 2
			if i%4 == 3 {
				n = 3 + t.R.Intn(2)
			}
			var ds []*big.Int
			for j := 0; j < n; j++ {
				ds = append(ds, key())
			}
			if i%9 == 2 {
				ds[1] = ds[0]
			}
			m := t.Bytes(32)
			if i%7 == 1 {
				m = t.Bytes(t.R.Intn(70))
			}
			again := i%3 != 0
			t.Case("session", fmt.Sprintf("keys %x message %x, phases repeated: %v", ds, m, again), func() string { return run(ds, m, again) })
		}
	})
}
