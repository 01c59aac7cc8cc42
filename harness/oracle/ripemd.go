package oracle

import (
	"encoding/binary"
	"math/bits"
)

// Ripemd160 follows the algorithm's published description.
func Ripemd160(msg []byte) []byte {
	r1 := [80]int{}
	rho := [16]int{7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8}
	for i := 0; i < 16; i++ {
		r1[i] = i
		for k := 1; k < 5; k++ {
			r1[16*k+i] = rho[r1[16*(k-1)+i]]
		}
	}
	r2 := [80]int{}
	for i := 0; i < 16; i++ {
		r2[i] = (9*i + 5) % 16
		for k := 1; k < 5; k++ {
			r2[16*k+i] = rho[r2[16*(k-1)+i]]
		}
	}
	sh := [5][16]int{
		{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8},
		{12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7},
		{13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9},
		{14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6},
		{15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5},
	}
	k1 := [5]uint32{0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}
	k2 := [5]uint32{0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0}
	f := func(j int, x, y, z uint32) uint32 {
		switch j {
		case 0:
			return x ^ y ^ z
		case 1:
			return x&y | ^x&z
		case 2:
			return (x | ^y) ^ z
		case 3:
			return x&z | y&^z
		}
		return x ^ (y | ^z)
	}
	b := append(append([]byte(nil), msg...), 0x80)
	for len(b)%64 != 56 {
		b = append(b, 0)
	}
	b = binary.LittleEndian.AppendUint64(b, uint64(len(msg))*8)
	h := [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}
	for ; len(b) > 0; b = b[64:] {
		var x [16]uint32
		for i := range x {
			x[i] = binary.LittleEndian.Uint32(b[4*i:])
		}
		l, r := h, h
		step := func(v *[5]uint32, fi int, w, k uint32, s int) {
			t := bits.RotateLeft32(v[0]+f(fi, v[1], v[2], v[3])+w+k, s) + v[4]
			v[0], v[4], v[3], v[2], v[1] = v[4], v[3], bits.RotateLeft32(v[2], 10), v[1], t
		}
		for j := 0; j < 80; j++ {
			step(&l, j/16, x[r1[j]], k1[j/16], sh[j/16][r1[j]])
			step(&r, 4-j/16, x[r2[j]], k2[j/16], sh[j/16][r2[j]])
		}
		h[0], h[1], h[2], h[3], h[4] = h[1]+l[2]+r[3], h[2]+l[3]+r[4], h[3]+l[4]+r[0], h[4]+l[0]+r[1], h[0]+l[1]+r[2]
	}
	var out []byte
	for _, v := range h {
		out = binary.LittleEndian.AppendUint32(out, v)
	}
	return out
}
