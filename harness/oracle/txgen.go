package oracle

import (
	"fmt"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/zzverif/h"
)

// Build makes the real transaction of a plain one. codes[i], when not nil, makes
// input i one whose unlocking script is carried by its witness.
func Build(o *Tx, codes [][]byte, stale [][]byte) (*xcore.Transaction, []*xcore.TxIn) {
	tx := xcore.NewTransaction()
	tx.SetVersion(o.Version)
	tx.SetLockTime(o.Lock)
	var ins []*xcore.TxIn
	for i, in := range o.In {
		x := &xcore.TxIn{Hash: in.Hash, Index: in.Index, Sequence: in.Seq, RawUnlockingScript: in.Script, Witness: in.Wit}
		if codes != nil && codes[i] != nil {
			x.WitnessScriptCode = codes[i]
			x.RawUnlockingScript = stale[i]
		}
		ins = append(ins, x)
		tx.AddInput(x)
	}
	for _, out := range o.Out {
		tx.AddOutput(xcore.NewTxOut(out.Value, out.Script))
	}
	return tx, ins
}

func count(t *h.T, big bool) int {
	if big {
		return []int{252, 253, 254, 300}[t.R.Intn(4)]
	}
	return []int{0, 1, 1, 2, 2, 3, 4, 7}[t.R.Intn(8)]
}

func script(t *h.T) []byte {
	switch t.R.Intn(12) {
	case 0:
		return nil
	case 1:
		return t.Bytes([]int{252, 253, 254, 255, 256, 520, 65535, 65536}[t.R.Intn(8)])
	}
	return t.Bytes(t.R.Intn(80))
}

// GenTx is a random transaction. wit: 0 without witnesses, 1 with or without.
func GenTx(t *h.T, wit int) (o *Tx, codes, stale [][]byte) {
	o = &Tx{Version: uint32(t.U64()), Lock: uint32(t.U64())}
	bigN := t.R.Intn(40)
	ni, no := count(t, bigN == 0), count(t, bigN == 1)
	kinds := t.R.Intn(4)
	for i := 0; i < ni; i++ {
		in := TxIn{Hash: t.Bytes(32), Index: uint32(t.U64()), Seq: uint32(t.U64())}
		var code, st []byte
		in.Script = script(t)
		if ni > 100 {
			in.Script = t.Bytes(t.R.Intn(4))
		}
		if wit == 1 && kinds > 0 && t.R.Intn(4) < kinds {
			switch t.R.Intn(3) {
			case 0: // wrapped: script and witness
			default:
				in.Script = nil
				code = append([]byte{0x76}, t.Bytes(t.R.Intn(40))...)
				st = script(t)
			}
			nw := t.R.Intn(5)
			if bigN == 2 && i == 0 {
				nw = 253
			}
			for j := 0; j < nw; j++ {
				if t.R.Intn(4) == 0 {
					in.Wit = append(in.Wit, []byte{})
				} else if nw > 100 {
					in.Wit = append(in.Wit, t.Bytes(1))
				} else {
					in.Wit = append(in.Wit, append([]byte{}, script(t)...))
				}
			}
		}
		o.In = append(o.In, in)
		codes = append(codes, code)
		stale = append(stale, st)
	}
	for i := 0; i < no; i++ {
		s := script(t)
		if no > 100 {
			s = t.Bytes(t.R.Intn(4))
		}
		o.Out = append(o.Out, TxOut{Value: t.U64(), Script: s})
	}
	return
}

// String describes a transaction by its bytes.
func (tx *Tx) String() string {
	b := tx.Bytes(true)
	if len(b) > 1500 {
		return fmt.Sprintf("%x... (%d bytes, %d inputs, %d outputs)", b[:1500], len(b), len(tx.In), len(tx.Out))
	}
	return fmt.Sprintf("%x", b)
}
