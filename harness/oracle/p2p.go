package oracle

import (
	"crypto/sha256"
	"encoding/binary"
)

// W builds little-endian wire bytes.
type W struct{ B []byte }

func (w *W) U8(v uint8) *W   { w.B = append(w.B, v); return w }
func (w *W) U16(v uint16) *W { w.B = binary.LittleEndian.AppendUint16(w.B, v); return w }
func (w *W) U32(v uint32) *W { w.B = binary.LittleEndian.AppendUint32(w.B, v); return w }
func (w *W) U64(v uint64) *W { w.B = binary.LittleEndian.AppendUint64(w.B, v); return w }
func (w *W) Raw(v []byte) *W { w.B = append(w.B, v...); return w }

// Var is a compact size.
func (w *W) Var(v uint64) *W {
	switch {
	case v < 0xfd:
		return w.U8(uint8(v))
	case v <= 0xffff:
		return w.U8(0xfd).U16(uint16(v))
	case v <= 0xffffffff:
		return w.U8(0xfe).U32(uint32(v))
	}
	return w.U8(0xff).U64(v)
}
func (w *W) VarBytes(v []byte) *W { return w.Var(uint64(len(v))).Raw(v) }

// DSha is the double SHA-256.
func DSha(b []byte) []byte {
	x := sha256.Sum256(b)
	x = sha256.Sum256(x[:])
	return x[:]
}

// Frame is a peer-to-peer message.
func Frame(magic []byte, cmd string, payload []byte) []byte {
	var c [12]byte
	copy(c[:], cmd)
	w := &W{}
	w.Raw(magic).Raw(c[:]).U32(uint32(len(payload))).Raw(DSha(payload)[:4]).Raw(payload)
	return w.B
}
