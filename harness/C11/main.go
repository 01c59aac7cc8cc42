package main

import (
	"bytes"
	"fmt"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

func rev(b []byte) string {
	r := make([]byte, len(b))
	for i, x := range b {
		r[len(b)-1-i] = x
	}
	return h.Hex(r)
}

func ids(tx *xcore.Transaction, o *oracle.Tx) string {
	full, bare := o.Bytes(true), o.Bytes(false)
	for i := 0; i < 2; i++ {
		if g, w := tx.Hash(), oracle.DSha(bare); !bytes.Equal(g, w) {
			return fmt.Sprintf("Hash %x, should be %x", g, w)
		}
		if g, w := tx.WitnessHash(), oracle.DSha(full); !bytes.Equal(g, w) {
			return fmt.Sprintf("WitnessHash %x, should be %x", g, w)
		}
		if g, w := tx.ID(), rev(oracle.DSha(bare)); g != w {
			return fmt.Sprintf("ID %s, should be %s", g, w)
		}
		if g, w := tx.WitnessID(), rev(oracle.DSha(full)); g != w {
			return fmt.Sprintf("WitnessID %s, should be %s", g, w)
		}
		weight := 3*len(bare) + len(full)
		for _, c := range []struct {
			n    string
			g, w int
		}{{"BaseSize", tx.BaseSize(), len(bare)}, {"Size", tx.Size(), len(full)}, {"Weight", tx.Weight(), weight}, {"Vsize", tx.Vsize(), (weight + 3) / 4}} {
			if c.g != c.w {
				return fmt.Sprintf("%s is %d, should be %d", c.n, c.g, c.w)
			}
		}
	}
	return ""
}

func main() {
	h.Main("C11", func(t *h.T) {
		for i := 0; i < t.N(2500) && t.Time(0.9); i++ {
			o, codes, stale := oracle.GenTx(t, i%2)
			mod := t.R.Intn(12)
			t.Case("ids", fmt.Sprint(mod, " ", o), func() string {
				tx, ins := oracle.Build(o, codes, stale)
				if m := ids(tx, o); m != "" {
					return "built: " + m
				}
				p := xcore.NewTransaction()
				var err error
				if o.HasWit() {
					err = p.Deserialize(o.Bytes(true))
				} else {
					err = p.DeserializeNoWitness(o.Bytes(true))
				}
				if err != nil {
					return fmt.Sprint("cannot parse: ", err)
				}
				if m := ids(p, o); m != "" {
					return "parsed: " + m
				}
				// change it and look again
				id, what := tx.ID(), "witness"
				keep := true
				switch {
				case mod == 0 && len(ins) > 0:
					k := t.R.Intn(len(ins))
					ins[k].Witness = append(ins[k].Witness, []byte{1, 2, 3})
					o.In[k].Wit = ins[k].Witness
				case mod == 1 && len(ins) > 0:
					for k := range ins {
						ins[k].Witness, o.In[k].Wit = nil, nil
					}
				case mod == 2 && len(ins) > 0:
					ins[0].Sequence++
					o.In[0].Seq++
					keep = false
				case mod == 3 && len(ins) > 0:
					ins[len(ins)-1].Index++
					o.In[len(ins)-1].Index++
					keep = false
				case mod == 4:
					tx.SetLockTime(o.Lock + 1)
					o.Lock++
					keep = false
				case mod == 5:
					tx.SetVersion(o.Version + 1)
					o.Version++
					keep = false
				case mod == 6:
					tx.AddOutput(xcore.NewTxOut(5, []byte{0x51}))
					o.Out = append(o.Out, oracle.TxOut{Value: 5, Script: []byte{0x51}})
					keep = false
				case mod == 7:
					hs := t.Bytes(32)
					tx.AddInput(&xcore.TxIn{Hash: hs, Index: 7, Sequence: 9})
					o.In = append(o.In, oracle.TxIn{Hash: hs, Index: 7, Seq: 9})
					keep = false
				default:
					return ""
				}
				if (tx.ID() == id) != keep {
					return fmt.Sprintf("change %d (%s only: %v): id was %s, is %s", mod, what, keep, id, tx.ID())
				}
				if m := ids(tx, o); m != "" {
					return "changed: " + m
				}
				return ""
			})
		}
	})
}
