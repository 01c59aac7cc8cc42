package oracle

import (
	"crypto/hmac"
	"encoding/binary"
	"hash"
)

// PBKDF2 is the RFC 8018 construction.
func PBKDF2(pw, salt []byte, iter, n int, h func() hash.Hash) []byte {
	prf := func(m []byte) []byte {
		x := hmac.New(h, pw)
		x.Write(m)
		return x.Sum(nil)
	}
	var dk []byte
	for i := uint32(1); len(dk) < n; i++ {
		u := prf(binary.BigEndian.AppendUint32(append([]byte{}, salt...), i))
		t := append([]byte{}, u...)
		for j := 1; j < iter; j++ {
			u = prf(u)
			for k := range t {
				t[k] ^= u[k]
			}
		}
		dk = append(dk, t...)
	}
	return dk[:n]
}
