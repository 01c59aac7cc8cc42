package oracle

import (
	"crypto/sha256"
	"math/big"
)

// HashInt is the SHA-256 of the parts as an integer modulo the order.
func HashInt(parts ...[]byte) *big.Int {
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	s := sha256.Sum256(b)
	x := Int(s[:])
	return x.Mod(x, N)
}

// SchnorrSign is the 2018 BIP-schnorr signature.
func SchnorrSign(d *big.Int, m []byte) (r, s *big.Int) {
	k := HashInt(B32(d), m)
	R := Mul(G, k)
	if big.Jacobi(R.Y, P) != 1 {
		k.Sub(N, k)
	}
	e := HashInt(B32(R.X), Compressed(Mul(G, d)), m)
	s = e.Mul(e, d)
	s.Add(s, k).Mod(s, N)
	return R.X, s
}

// SchnorrVerify decides a 64-byte signature.
func SchnorrVerify(q Pt, m, sig []byte) bool {
	if len(sig) != 64 {
		return false
	}
	r, s := Int(sig[:32]), Int(sig[32:])
	if r.Cmp(P) >= 0 || s.Cmp(N) >= 0 {
		return false
	}
	e := HashInt(sig[:32], Compressed(q), m)
	R := Add(Mul(G, s), Neg(Mul(q, e)))
	return R.X != nil && R.X.Cmp(r) == 0 && big.Jacobi(R.Y, P) == 1
}

func sha(b []byte) []byte {
	s := sha256.Sum256(b)
	return s[:]
}
