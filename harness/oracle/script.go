// Package oracle holds independent reference computations.
package oracle

import (
	"encoding/binary"
)

// Push is the canonical push of d.
func Push(d []byte) []byte {
	n := len(d)
	switch {
	case n == 0:
		return []byte{0x00}
	case n == 1 && d[0] >= 1 && d[0] <= 16:
		return []byte{0x50 + d[0]}
	case n == 1 && d[0] == 0x81:
		return []byte{0x4f}
	case n <= 75:
		return append([]byte{byte(n)}, d...)
	case n < 256:
		return append([]byte{0x4c, byte(n)}, d...)
	case n < 65536:
		r := []byte{0x4d, 0, 0}
		binary.LittleEndian.PutUint16(r[1:], uint16(n))
		return append(r, d...)
	}
	r := []byte{0x4e, 0, 0, 0, 0}
	binary.LittleEndian.PutUint32(r[1:], uint32(n))
	return append(r, d...)
}

// Ins is one instruction of a script.
type Ins struct {
	Op   byte
	Data []byte
	Raw  []byte
}

// Known are the non-push opcodes the interpreter supports.
var Known = map[byte]bool{0x4f: true, 0x63: true, 0x64: true, 0x67: true, 0x68: true, 0x6a: true, 0x6e: true, 0x6f: true, 0x76: true, 0x75: true,
	0x82: true, 0x7c: true, 0x87: true, 0x88: true, 0x93: true, 0xa9: true, 0xac: true, 0xad: true, 0xae: true, 0xaf: true}

func init() {
	for i := 0x51; i <= 0x60; i++ {
		Known[byte(i)] = true
	}
}

// Parse splits a script; ok is false when a push runs past the end.
// unknown reports an opcode outside the supported ones before any such error.
func Parse(s []byte) (r []Ins, ok bool, unknown bool) {
	for p := 0; p < len(s); {
		op := s[p]
		q := p + 1
		n := 0
		switch {
		case op >= 1 && op <= 75:
			n = int(op)
		case op == 0x4c:
			if q+1 > len(s) {
				return r, false, unknown
			}
			n = int(s[q])
			q++
		case op == 0x4d:
			if q+2 > len(s) {
				return r, false, unknown
			}
			n = int(s[q]) | int(s[q+1])<<8
			q += 2
		case op == 0x4e:
			if q+4 > len(s) {
				return r, false, unknown
			}
			n = int(s[q]) | int(s[q+1])<<8 | int(s[q+2])<<16 | int(s[q+3])<<24
			q += 4
		case op != 0 && !Known[op]:
			unknown = true
		}
		if n > len(s)-q {
			return r, false, unknown
		}
		r = append(r, Ins{op, s[q : q+n : q+n], s[p : q+n : q+n]})
		p = q + n
	}
	return r, true, unknown
}
