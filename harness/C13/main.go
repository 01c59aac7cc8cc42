package main

import (
	"bytes"
	"fmt"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

var types = []uint32{1, 2, 3, 0x81, 0x82, 0x83, 1, 2, 3, 0x81, 0x82, 0x83, 0, 4, 0x7, 0x1e, 0x1f, 0x80, 0xff, 0x41, 0x43, 0x101, 0x80000003}

func main() {
	h.Main("C13", func(t *h.T) {
		key := xcrypto.PrvKeyFromBytes(bytes.Repeat([]byte{9}, 32))
		pub := oracle.Mul(oracle.G, oracle.Int(bytes.Repeat([]byte{9}, 32)))
		for i := 0; i < t.N(1500) && t.Time(0.9); i++ {
			o, _, _ := oracle.GenTx(t, 1)
			if len(o.In) == 0 && i%5 != 0 {
				continue
			}
			tx, ins := oracle.Build(o, nil, nil)
			var codes [][]byte
			var amounts []uint64
			locks := [][]byte{append([]byte{0, 20}, t.Bytes(20)...), append([]byte{0, 32}, t.Bytes(32)...)}
			for _, in := range ins {
				c := t.Bytes([]int{0, 1, 25, 25, 100, 252, 253, 600}[t.R.Intn(8)])
				codes = append(codes, c)
				amounts = append(amounts, t.U64())
				in.WitnessScriptCode, in.Value = c, amounts[len(amounts)-1]
				in.RawLockingScript = locks[t.R.Intn(2)]
			}
			hist := ""
			for step := 0; step < 10; step++ {
				ht := types[t.R.Intn(len(types))]
				idx := 0
				if len(ins) > 0 {
					idx = t.R.Intn(len(ins))
				}
				switch t.R.Intn(14) {
				case 0:
					idx = []int{-1, len(ins), len(ins) + 7, -1 << 60}[t.R.Intn(4)]
				}
				if step > 0 && len(ins) > 0 {
					k := t.R.Intn(len(ins))
					e := t.R.Intn(16)
					switch e {
					case 0:
						ins[k].Sequence++
						o.In[k].Seq++
					case 1:
						ins[k].Index++
						o.In[k].Index++
					case 2:
						hs := t.Bytes(32)
						ins[k].Hash, o.In[k].Hash = hs, hs
					case 3:
						amounts[k]++
						ins[k].Value++
					case 4:
						tx.AddOutput(xcore.NewTxOut(77, []byte{0x51}))
						o.Out = append(o.Out, oracle.TxOut{Value: 77, Script: []byte{0x51}})
					case 5:
						o.Lock++
						tx.SetLockTime(o.Lock)
					case 6:
						o.Version++
						tx.SetVersion(o.Version)
					case 7:
						hs := t.Bytes(32)
						in := &xcore.TxIn{Hash: hs, Index: 3, Sequence: 4, Value: 5, WitnessScriptCode: []byte{1}, RawLockingScript: locks[0]}
						tx.AddInput(in)
						ins = append(ins, in)
						o.In = append(o.In, oracle.TxIn{Hash: hs, Index: 3, Seq: 4})
						codes, amounts = append(codes, []byte{1}), append(amounts, 5)
					case 8:
						ins[k].WitnessScriptCode = []byte{0x51, 0x52}
						codes[k] = []byte{0x51, 0x52}
					default:
						e = -1
					}
					if e >= 0 {
						hist += fmt.Sprintf(" edit%d@%d", e, k)
					}
				}
				hist += fmt.Sprintf(" hash(%d,%#x)", idx, ht)
				sign := step == 9 && i%10 == 0
				t.Case("hash", fmt.Sprintf("tx=%v history:%s", o, hist), func() string {
					var b, a []xcore.TxIn
					for _, in := range ins {
						b = append(b, *in)
					}
					bb := tx.Serialize()
					got := tx.WitnessV0SignatureHash(idx, xcore.SigHashType(ht))
					for _, in := range ins {
						a = append(a, *in)
					}
					if fmt.Sprint(a) != fmt.Sprint(b) || !bytes.Equal(bb, tx.Serialize()) {
						return "computing the hash changes the transaction"
					}
					if idx < 0 || idx >= len(o.In) {
						if len(got) != 0 {
							return fmt.Sprintf("an input outside the transaction hashes to %x", got)
						}
						if _, err := tx.WitnessSignature(idx, xcore.SigHashType(ht), key); err == nil {
							return "an input outside the transaction is signed"
						}
						return ""
					}
					want := o.Segwit0(idx, codes[idx], amounts[idx], ht)
					if !bytes.Equal(got, want) {
						return fmt.Sprintf("%x, should be %x", got, want)
					}
					if !sign {
						return ""
					}
					sig, err := tx.WitnessSignature(idx, xcore.SigHashType(ht), key)
					if err != nil || len(sig) < 9 || sig[len(sig)-1] != byte(ht) {
						return fmt.Sprintf("WitnessSignature: %x %v", sig, err)
					}
					r, s, ok := oracle.ParseDER(sig[:len(sig)-1])
					if !ok || !oracle.Verify(pub, want, r, s) {
						return fmt.Sprintf("WitnessSignature does not sign the hash: %x", sig)
					}
					return ""
				})
			}
		}
	})
}
