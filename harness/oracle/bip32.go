package oracle

import (
	"crypto/hmac"
	"crypto/sha512"
	"encoding/binary"
	"math/big"
)

// XKey is a BIP32 extended key; D is nil for a public one.
type XKey struct {
	D     *big.Int
	Q     Pt
	Chain []byte
	Depth byte
	FP    []byte
	Num   uint32
}

func hm512(key []byte, parts ...[]byte) []byte {
	m := hmac.New(sha512.New, key)
	for _, p := range parts {
		m.Write(p)
	}
	return m.Sum(nil)
}

// Master is the master key of a seed, nil when the seed is unusable.
func Master(seed []byte) *XKey {
	i := hm512([]byte("Bitcoin seed"), seed)
	d := Int(i[:32])
	if d.Sign() == 0 || d.Cmp(N) >= 0 {
		return nil
	}
	return &XKey{d, Mul(G, d), i[32:], 0, make([]byte, 4), 0}
}

// Child derives, nil when that cannot be done.
func (k *XKey) Child(n uint32) *XKey {
	if k.Depth == 255 {
		return nil
	}
	var ix [4]byte
	binary.BigEndian.PutUint32(ix[:], n)
	var i []byte
	switch {
	case n >= 1<<31 && k.D == nil:
		return nil
	case n >= 1<<31:
		i = hm512(k.Chain, []byte{0}, B32(k.D), ix[:])
	default:
		i = hm512(k.Chain, Compressed(k.Q), ix[:])
	}
	il := Int(i[:32])
	if il.Cmp(N) >= 0 {
		return nil
	}
	c := &XKey{Chain: i[32:], Depth: k.Depth + 1, FP: Hash160(Compressed(k.Q))[:4], Num: n}
	if k.D != nil {
		c.D = new(big.Int).Add(il, k.D)
		c.D.Mod(c.D, N)
		if c.D.Sign() == 0 {
			return nil
		}
		c.Q = Mul(G, c.D)
	} else {
		c.Q = Add(Mul(G, il), k.Q)
		if c.Q.X == nil {
			return nil
		}
	}
	return c
}

// Pub is the public half.
func (k *XKey) Pub() *XKey {
	c := *k
	c.D = nil
	return &c
}

// Raw is the 78-byte structure.
func (k *XKey) Raw(version []byte) []byte {
	b := append([]byte{}, version...)
	b = append(b, k.Depth)
	b = append(b, k.FP...)
	b = binary.BigEndian.AppendUint32(b, k.Num)
	b = append(b, k.Chain...)
	if k.D != nil {
		return append(append(b, 0), B32(k.D)...)
	}
	return append(b, Compressed(k.Q)...)
}

// Text is the Base58 form.
func (k *XKey) Text(version []byte) string {
	r := k.Raw(version)
	return Base58(append(r, DSha(r)[:4]...))
}
