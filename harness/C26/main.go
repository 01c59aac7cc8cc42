package main

import (
	"fmt"
	"math/big"

	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/zzverif/h"
)

func bi(n int64) *big.Int { return big.NewInt(n) }

func main() {
	h.Main("C26", func(t *h.T) {
		rnd := func(n *big.Int) *big.Int {
			switch t.R.Intn(8) {
			case 0:
				return bi(0)
			case 1:
				return bi(1)
			case 2:
				return new(big.Int).Sub(n, bi(1))
			case 3:
				return new(big.Int).Rsh(n, 1)
			}
			x := new(big.Int).SetBytes(t.Bytes((n.BitLen() + 15) / 8))
			return x.Mod(x, n)
		}
		type pair struct {
			pk *paillier.PubKey
			sk *paillier.PrvKey
		}
		var keys []pair
		for _, bits := range []int{16, 17, 18, 20, 24, 31, 32, 33, 48, 64, 65, 100, 128, 256, 512, 1024} {
			for j := 0; j < 3; j++ {
				bits := bits
				t.Case("generate", fmt.Sprintf("%d bits", bits), func() string {
					pk, sk, err := paillier.GenerateKeyPair(bits)
					if err != nil {
						// Two equal primes are refused; only tiny sizes meet them.
						if bits < 32 {
							return ""
						}
						return err.Error()
					}
					if pk == nil || sk == nil {
						return "no key and no error"
					}
					if pk.N.BitLen() < bits-2 || pk.N.BitLen() > bits {
						return fmt.Sprintf("modulus of %d bits", pk.N.BitLen())
					}
					if nn := new(big.Int).Mul(pk.N, pk.N); nn.Cmp(pk.NN) != 0 {
						return "NN is not N squared"
					}
					if r := new(big.Int).Sqrt(pk.N); r.Mul(r, r).Cmp(pk.N) == 0 {
						return "the modulus is a square"
					}
					keys = append(keys, pair{pk, sk})
					return ""
				})
			}
		}
		for round := 0; round < t.N(12) && t.Time(0.8); round++ {
			for _, k := range keys {
				if !t.Time(0.85) {
					break
				}
				if k.pk.N.BitLen() > 400 && round > 2 {
					continue
				}
				pk, sk := k.pk, k.sk
				n := pk.N
				m1, m2, f := rnd(n), rnd(n), rnd(n)
				in := fmt.Sprintf("N=%v m1=%v m2=%v", n, m1, m2)
				a1, a2, af := new(big.Int).Set(m1), new(big.Int).Set(m2), new(big.Int).Set(f)
				dec := func(c *big.Int, want *big.Int, what string) string {
					w := new(big.Int).Mod(want, n)
					keep := new(big.Int).Set(c)
					for i := 0; i < 2; i++ {
						m, err := sk.Decrypt(c)
						if err != nil {
							return what + " does not decrypt: " + err.Error()
						}
						if m.Cmp(w) != 0 {
							return fmt.Sprintf("%s decrypts to %v, should be %v", what, m, w)
						}
					}
					if keep.Cmp(c) != 0 {
						return what + " was changed by decryption"
					}
					return ""
				}
				var c1, c2 *big.Int
				t.Case("decrypt", in, func() string {
					var err error
					if c1, err = pk.Encrypt(a1); err != nil {
						return err.Error()
					}
					if c2, err = pk.Encrypt(a2); err != nil {
						return err.Error()
					}
					if e := dec(c1, m1, "the encryption of m1"); e != "" {
						return e
					}
					return dec(c2, m2, "the encryption of m2")
				})
				if c1 == nil || c2 == nil {
					continue
				}
				k1, k2 := new(big.Int).Set(c1), new(big.Int).Set(c2)
				same := func() string {
					if c1.Cmp(k1) != 0 || c2.Cmp(k2) != 0 || a1.Cmp(m1) != 0 || a2.Cmp(m2) != 0 || af.Cmp(f) != 0 {
						return "an argument was changed"
					}
					return ""
				}
				t.Case("sum", in, func() string {
					c, err := pk.Add(c1, c2)
					if err != nil {
						return err.Error()
					}
					if e := dec(c, new(big.Int).Add(m1, m2), "the product of the ciphertexts"); e != "" {
						return e
					}
					c, err = pk.AddPlaintext(c1, a2)
					if err != nil {
						return err.Error()
					}
					if e := dec(c, new(big.Int).Add(m1, m2), "c1 with m2 added"); e != "" {
						return e
					}
					if c = pk.Sub(c1, c2); c == nil {
						return "no difference"
					}
					if e := dec(c, new(big.Int).Sub(m1, m2), "the quotient of the ciphertexts"); e != "" {
						return e
					}
					// Twice the same, and with itself.
					if c, err = pk.Add(c1, c1); err != nil {
						return err.Error()
					}
					if e := dec(c, new(big.Int).Add(m1, m1), "the square of the ciphertext"); e != "" {
						return e
					}
					return same()
				})
				t.Case("product", in+fmt.Sprintf(" f=%v", f), func() string {
					c, err := pk.MultPlaintext(c1, af)
					if err != nil {
						return err.Error()
					}
					if e := dec(c, new(big.Int).Mul(m1, f), "the power of the ciphertext"); e != "" {
						return e
					}
					big1 := new(big.Int).Mul(n, bi(3))
					big1.Add(big1, f)
					if c, err = pk.MultPlaintext(c1, big1); err != nil {
						return err.Error()
					}
					if e := dec(c, new(big.Int).Mul(m1, f), "the power with an exponent above the modulus"); e != "" {
						return e
					}
					if inv := new(big.Int).ModInverse(f, n); inv != nil {
						if c, err = pk.DivPlaintext(c1, af); err != nil {
							return err.Error()
						}
						if e := dec(c, new(big.Int).Mul(m1, inv), "the root of the ciphertext"); e != "" {
							return e
						}
					} else if c, err := pk.DivPlaintext(c1, af); err == nil {
						return fmt.Sprintf("division by %v gave %v", f, c)
					}
					return same()
				})
				t.Case("range", fmt.Sprintf("N=%v", n), func() string {
					for _, m := range []*big.Int{bi(-1), new(big.Int).Neg(n), new(big.Int).Set(n), new(big.Int).Add(n, bi(1)), new(big.Int).Lsh(n, 9)} {
						if c, err := pk.Encrypt(m); err == nil {
							return fmt.Sprintf("message %v encrypted to %v", m, c)
						}
					}
					nn := pk.NN
					for _, c := range []*big.Int{bi(0), bi(-1), new(big.Int).Neg(c1), new(big.Int).Set(nn), new(big.Int).Add(nn, bi(1)), new(big.Int).Add(nn, c1), new(big.Int).Lsh(nn, 5)} {
						if m, err := sk.Decrypt(c); err == nil {
							return fmt.Sprintf("ciphertext %v decrypted to %v", c, m)
						}
						if x, err := pk.Add(c, c1); err == nil {
							return fmt.Sprintf("ciphertext %v added to %v", c, x)
						}
						if x, err := pk.Add(c1, c); err == nil {
							return fmt.Sprintf("ciphertext %v added to %v", c, x)
						}
						if x, err := pk.MultPlaintext(c, bi(2)); err == nil {
							return fmt.Sprintf("ciphertext %v multiplied to %v", c, x)
						}
						if x, err := pk.AddPlaintext(c, bi(2)); err == nil {
							return fmt.Sprintf("ciphertext %v added to %v", c, x)
						}
						if x, err := pk.DivPlaintext(c, bi(1)); err == nil {
							return fmt.Sprintf("ciphertext %v divided to %v", c, x)
						}
					}
					return same()
				})
			}
		}
		// Every message of the smallest keys.
		for i, k := range keys {
			if i > 2 || !t.Time(0.95) {
				break
			}
			t.Case("all messages", fmt.Sprintf("N=%v", k.pk.N), func() string {
				for m := int64(0); m < k.pk.N.Int64(); m++ {
					c, err := k.pk.Encrypt(bi(m))
					if err != nil {
						return fmt.Sprintf("message %d: %v", m, err)
					}
					d, err := k.sk.Decrypt(c)
					if err != nil || d.Cmp(bi(m)) != 0 {
						return fmt.Sprintf("message %d decrypts to %v (%v)", m, d, err)
					}
				}
				return ""
			})
		}
	})
}
