package oracle

import (
	"crypto/elliptic"
	"math/big"
)

// Toy is y^2 = x^3+7 over a small field with prime group order, given by its
// table of multiples: the same code under test runs on it, and every case of
// the group (coordinates not below the order, all signatures) is reachable.
type Toy struct {
	*elliptic.CurveParams
	pts []Pt // pts[i] = i*G
	idx map[[2]int64]int64
}

// NewToy builds the toy curve with the largest field below the bound whose
// order is prime, below (less=true) or above the field size.
func NewToy(bound int64, less bool) *Toy {
	for p := bound; ; p-- {
		if p%4 != 3 || !big.NewInt(p).ProbablyPrime(10) {
			continue
		}
		var first *[2]int64
		n := int64(1)
		roots := map[int64][]int64{}
		for y := int64(0); y < p; y++ {
			roots[y*y%p] = append(roots[y*y%p], y)
		}
		for x := int64(0); x < p; x++ {
			for _, y := range roots[(x*x%p*x+7)%p] {
				n++
				if first == nil {
					first = &[2]int64{x, y}
				}
			}
		}
		if !big.NewInt(n).ProbablyPrime(10) || (n < p) != less || n == p {
			continue
		}
		t := &Toy{CurveParams: &elliptic.CurveParams{Name: "toy", P: big.NewInt(p), N: big.NewInt(n), B: big.NewInt(7), Gx: big.NewInt(first[0]), Gy: big.NewInt(first[1]), BitSize: 256}, idx: map[[2]int64]int64{}}
		inv := func(a int64) int64 { return new(big.Int).ModInverse(big.NewInt(((a%p)+p)%p), big.NewInt(p)).Int64() }
		x, y := first[0], first[1]
		t.pts = append(t.pts, Pt{})
		for i := int64(1); i < n; i++ {
			t.pts = append(t.pts, Pt{big.NewInt(x), big.NewInt(y)})
			t.idx[[2]int64{x, y}] = i
			if i == n-1 {
				break
			}
			var l int64
			if i == 1 {
				l = 3 * x % p * x % p * inv(2*y) % p
			} else {
				l = (y - first[1]) % p * inv(x-first[0]) % p
			}
			x3 := ((l*l-x-first[0])%p + p) % p
			y3 := ((l*(first[0]-x3)-first[1])%p + p) % p
			x, y = x3, y3
		}
		return t
	}
}

// At is k times the generator.
func (t *Toy) At(k int64) Pt {
	n := t.CurveParams.N.Int64()
	return t.pts[((k%n)+n)%n]
}

// Index is the discrete logarithm (0 for anything not on the curve).
func (t *Toy) Index(x, y *big.Int) int64 {
	p := t.CurveParams.P
	a, b := new(big.Int).Mod(x, p).Int64(), new(big.Int).Mod(y, p).Int64()
	return t.idx[[2]int64{a, b}]
}

func (t *Toy) out(k int64) (*big.Int, *big.Int) {
	p := t.At(k)
	if p.X == nil {
		return new(big.Int), new(big.Int)
	}
	return new(big.Int).Set(p.X), new(big.Int).Set(p.Y)
}

func (t *Toy) k(k []byte) int64 {
	return new(big.Int).Mod(Int(k), t.CurveParams.N).Int64()
}

// The elliptic.Curve interface.
func (t *Toy) Params() *elliptic.CurveParams { return t.CurveParams }
func (t *Toy) IsOnCurve(x, y *big.Int) bool {
	p := t.CurveParams.P
	return x.Sign() >= 0 && y.Sign() >= 0 && x.Cmp(p) < 0 && y.Cmp(p) < 0 && t.Index(x, y) != 0
}
func (t *Toy) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	return t.out(t.Index(x1, y1) + t.Index(x2, y2))
}
func (t *Toy) Double(x1, y1 *big.Int) (*big.Int, *big.Int) { return t.out(2 * t.Index(x1, y1)) }
func (t *Toy) ScalarMult(x, y *big.Int, k []byte) (*big.Int, *big.Int) {
	return t.out(t.Index(x, y) * t.k(k))
}
func (t *Toy) ScalarBaseMult(k []byte) (*big.Int, *big.Int) { return t.out(t.k(k)) }

// SchnorrOK decides a Schnorr signature on the toy curve.
func (t *Toy) SchnorrOK(q int64, m []byte, r, s int64) bool {
	p, n := t.CurveParams.P.Int64(), t.CurveParams.N.Int64()
	if r < 0 || s < 0 || r >= p || s >= n {
		return false
	}
	e := t.Chal(q, m, r)
	R := t.At(s - e*q%n)
	return R.X != nil && R.X.Int64() == r && big.Jacobi(R.Y, t.CurveParams.P) == 1
}

// Chal is the Schnorr challenge on the toy curve.
func (t *Toy) Chal(q int64, m []byte, r int64) int64 {
	n := t.CurveParams.N
	Q := t.At(q)
	var b []byte
	b = append(b, B32(big.NewInt(r))...)
	b = append(b, Compressed(Q)...)
	b = append(b, m...)
	h := sha(b)
	return new(big.Int).Mod(Int(h), n).Int64()
}

// EcdsaOK decides an ECDSA signature on the toy curve; z is the integer made of the hash.
func (t *Toy) EcdsaOK(q, z, r, s int64) bool {
	n := t.CurveParams.N.Int64()
	if r <= 0 || s <= 0 || r >= n || s >= n {
		return false
	}
	w := new(big.Int).ModInverse(big.NewInt(s), t.CurveParams.N).Int64()
	R := t.At(z%n*w%n + r*w%n*q%n)
	return R.X != nil && R.X.Int64()%n == r
}
