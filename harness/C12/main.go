package main

import (
	"bytes"
	"fmt"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

// code is a script without the OP_CODESEPARATOR opcode (its byte may occur in data).
func code(t *h.T) []byte {
	b := []byte{}
	if t.R.Intn(8) == 0 { // anything that is not read as a code separator
		b = t.Bytes(t.R.Intn(60))
	}
	for i := t.R.Intn(7); i > 0; i-- {
		switch t.R.Intn(4) {
		case 0:
			b = append(b, oracle.Push(bytes.Repeat([]byte{0xab}, t.R.Intn(80)))...)
		case 1:
			b = append(b, oracle.Push(t.Bytes([]int{0, 1, 20, 33, 75, 76, 255, 256, 300}[t.R.Intn(9)]))...)
		case 2: // not the shortest push
			d := t.Bytes(t.R.Intn(5))
			b = append(append(b, 0x4c, byte(len(d))), d...)
		default:
			b = append(b, []byte{0x51, 0x60, 0x63, 0x68, 0x75, 0x76, 0x87, 0x88, 0x93, 0xa9, 0xac, 0xad, 0xae, 0xaf}[t.R.Intn(14)])
		}
	}
	ins, _, _ := oracle.Parse(b)
	for _, in := range ins {
		if in.Op == 0xab {
			return []byte{0x51}
		}
	}
	return b
}

func snapshot(ins []*xcore.TxIn) string { return fmt.Sprintf("%+v", deref(ins)) }
func deref(ins []*xcore.TxIn) (r []xcore.TxIn) {
	for _, in := range ins {
		c := *in
		c.SignatureHash = nil
		r = append(r, c)
	}
	return
}

var types = []uint32{1, 1, 1, 2, 3, 0x81, 0x82, 0x83, 0, 4, 0x1f, 0x80, 0xff, 0x41, 0x101, 0x80000001, 0xffffffff}

func main() {
	h.Main("C12", func(t *h.T) {
		key := xcrypto.PrvKeyFromBytes(bytes.Repeat([]byte{7}, 32))
		pub := oracle.Mul(oracle.G, oracle.Int(bytes.Repeat([]byte{7}, 32)))
		for i := 0; i < t.N(3000) && t.Time(0.8); i++ {
			o, _, _ := oracle.GenTx(t, 0)
			if len(o.In) > 100 && i%4 != 0 {
				continue
			}
			ht := types[t.R.Intn(len(types))]
			var codes [][]byte
			tx, ins := oracle.Build(o, nil, nil)
			for k, in := range ins {
				c := code(t)
				codes = append(codes, c)
				if t.R.Intn(2) == 0 {
					in.RedeemScript = c
					in.FinalLockingScript = append([]byte{0xa9}, oracle.Push(oracle.Hash160(c))...)
				} else {
					in.FinalLockingScript = c
				}
				if t.R.Intn(3) == 0 {
					in.Witness = [][]byte{{1}, {2, byte(k)}}
				}
			}
			sign := i%40 == 0
			idxs := []int{-1, -2, -1 << 62, len(o.In), len(o.In) + 1, 1<<62 + 3}
			for k := range o.In {
				if len(o.In) < 10 || t.R.Intn(60) == 0 {
					idxs = append(idxs, k)
				}
			}
			for _, idx := range idxs {
				idx := idx
				name := "hash"
				if idx < 0 || idx >= len(o.In) {
					name = "index"
				}
				c := []byte(nil)
				if name == "hash" {
					c = codes[idx]
				}
				t.Case(name, fmt.Sprintf("idx=%d type=%#x code=%x tx=%v", idx, ht, c, o), func() string {
					before, bb := snapshot(ins), tx.Serialize()
					got := tx.RawSignatureHash(idx, xcore.SigHashType(ht))
					if snapshot(ins) != before || !bytes.Equal(bb, tx.Serialize()) {
						return "computing the hash changes the transaction"
					}
					if name == "index" {
						if len(got) != 0 {
							return fmt.Sprintf("an input outside the transaction hashes to %x", got)
						}
						if sig, err := tx.RawSignature(idx, xcore.SigHashType(ht), key); err == nil {
							return fmt.Sprintf("an input outside the transaction is signed: %x", sig)
						}
						return ""
					}
					want := o.Legacy(idx, codes[idx], ht)
					if !bytes.Equal(got, want) {
						return fmt.Sprintf("%x, should be %x", got, want)
					}
					if again := tx.RawSignatureHash(idx, xcore.SigHashType(ht)); !bytes.Equal(again, want) {
						return fmt.Sprintf("a second call gives %x, the first %x", again, want)
					}
					if !sign {
						return ""
					}
					sig, err := tx.RawSignature(idx, xcore.SigHashType(ht), key)
					if ht&0x1f == 3 && idx >= len(o.Out) {
						if err == nil {
							return "signing with SINGLE and no output to sign is no error"
						}
						return ""
					}
					if err != nil || len(sig) < 9 || sig[len(sig)-1] != byte(ht) {
						return fmt.Sprintf("RawSignature: %x %v", sig, err)
					}
					r, s, ok := oracle.ParseDER(sig[:len(sig)-1])
					if !ok || !oracle.Verify(pub, want, r, s) {
						return fmt.Sprintf("RawSignature does not sign the hash: %x", sig)
					}
					return ""
				})
			}
		}
	})
}
