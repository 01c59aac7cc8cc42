package oracle

import (
	"encoding/binary"
	"errors"
)

// TxIn, TxOut and Tx are a transaction in the plainest form.
type TxIn struct {
	Hash   []byte
	Index  uint32
	Script []byte
	Seq    uint32
	Wit    [][]byte
}
type TxOut struct {
	Value  uint64
	Script []byte
}
type Tx struct {
	Version uint32
	In      []TxIn
	Out     []TxOut
	Lock    uint32
}

// HasWit says whether an input carries a witness.
func (tx *Tx) HasWit() bool {
	for _, in := range tx.In {
		if len(in.Wit) > 0 {
			return true
		}
	}
	return false
}

// Bytes is the wire format of BIP144, without the witnesses if wit is false.
func (tx *Tx) Bytes(wit bool) []byte {
	w := &W{}
	wit = wit && tx.HasWit()
	w.U32(tx.Version)
	if wit {
		w.U8(0).U8(1)
	}
	w.Var(uint64(len(tx.In)))
	for _, in := range tx.In {
		w.Raw(in.Hash).U32(in.Index).VarBytes(in.Script).U32(in.Seq)
	}
	w.Var(uint64(len(tx.Out)))
	for _, o := range tx.Out {
		w.U64(o.Value).VarBytes(o.Script)
	}
	if wit {
		for _, in := range tx.In {
			w.Var(uint64(len(in.Wit)))
			for _, x := range in.Wit {
				w.VarBytes(x)
			}
		}
	}
	w.U32(tx.Lock)
	return w.B
}

type rd struct {
	b   []byte
	bad bool
}

func (r *rd) take(n uint64) []byte {
	if r.bad || n > uint64(len(r.b)) {
		r.bad = true
		return nil
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *rd) num(n uint64) uint64 {
	var x [8]byte
	copy(x[:], r.take(n))
	return binary.LittleEndian.Uint64(x[:])
}
func (r *rd) cs() uint64 {
	switch d := r.num(1); d {
	case 0xfd:
		return r.num(2)
	case 0xfe:
		return r.num(4)
	case 0xff:
		return r.num(8)
	default:
		return d
	}
}

// ParseTx parses a transaction in the given format; trailing bytes are left.
func ParseTx(b []byte, wit bool) (*Tx, error) {
	r := &rd{b: b}
	tx := &Tx{Version: uint32(r.num(4))}
	if wit && (r.num(1) != 0 || r.num(1) != 1) {
		return nil, errors.New("no marker")
	}
	for n := r.cs(); n > 0 && !r.bad; n-- {
		tx.In = append(tx.In, TxIn{Hash: r.take(32), Index: uint32(r.num(4)), Script: r.take(r.cs()), Seq: uint32(r.num(4))})
	}
	for n := r.cs(); n > 0 && !r.bad; n-- {
		tx.Out = append(tx.Out, TxOut{Value: r.num(8), Script: r.take(r.cs())})
	}
	if wit {
		for i := range tx.In {
			for n := r.cs(); n > 0 && !r.bad; n-- {
				tx.In[i].Wit = append(tx.In[i].Wit, r.take(r.cs()))
			}
		}
	}
	tx.Lock = uint32(r.num(4))
	if r.bad {
		return nil, errors.New("truncated")
	}
	return tx, nil
}

// Legacy is the signature hash of a pre-segwit input.
func (tx *Tx) Legacy(idx int, code []byte, ht uint32) []byte {
	base := ht & 0x1f
	if base == 3 && idx >= len(tx.Out) {
		h := make([]byte, 32)
		h[0] = 1
		return h
	}
	c := &Tx{Version: tx.Version, Lock: tx.Lock}
	for i, in := range tx.In {
		n := TxIn{Hash: in.Hash, Index: in.Index, Seq: in.Seq}
		if i == idx {
			n.Script = code
		} else if base == 2 || base == 3 {
			n.Seq = 0
		}
		if ht&0x80 != 0 && i != idx {
			continue
		}
		c.In = append(c.In, n)
	}
	switch base {
	case 2:
	case 3:
		for i := 0; i < idx; i++ {
			c.Out = append(c.Out, TxOut{Value: 1<<64 - 1})
		}
		c.Out = append(c.Out, tx.Out[idx])
	default:
		c.Out = tx.Out
	}
	return DSha(binary.LittleEndian.AppendUint32(c.Bytes(false), ht))
}

// Segwit0 is BIP143's signature hash.
func (tx *Tx) Segwit0(idx int, code []byte, amount uint64, ht uint32) []byte {
	zero := make([]byte, 32)
	prev, seq, outs := zero, zero, zero
	base := ht & 0x1f
	if ht&0x80 == 0 {
		w := &W{}
		for _, in := range tx.In {
			w.Raw(in.Hash).U32(in.Index)
		}
		prev = DSha(w.B)
		if base != 2 && base != 3 {
			w = &W{}
			for _, in := range tx.In {
				w.U32(in.Seq)
			}
			seq = DSha(w.B)
		}
	}
	if base != 2 && base != 3 {
		w := &W{}
		for _, o := range tx.Out {
			w.U64(o.Value).VarBytes(o.Script)
		}
		outs = DSha(w.B)
	} else if base == 3 && idx < len(tx.Out) {
		outs = DSha((&W{}).U64(tx.Out[idx].Value).VarBytes(tx.Out[idx].Script).B)
	}
	in := tx.In[idx]
	return DSha((&W{}).U32(tx.Version).Raw(prev).Raw(seq).Raw(in.Hash).U32(in.Index).VarBytes(code).U64(amount).U32(in.Seq).Raw(outs).U32(tx.Lock).U32(ht).B)
}
