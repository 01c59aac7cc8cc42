package main

import (
	"bytes"
	"fmt"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

type scene struct {
	coins []*oracle.Coin
	o     *oracle.Tx
	tx    *xcore.Transaction
	ins   []*xcore.TxIn
	desc  string
}

func build(t *h.T, kinds ...int) *scene {
	s := &scene{o: &oracle.Tx{Version: uint32(1 + t.R.Intn(2)), Lock: uint32(t.U64())}, tx: xcore.NewTransaction()}
	s.tx.SetVersion(s.o.Version)
	s.tx.SetLockTime(s.o.Lock)
	for _, k := range kinds {
		c := oracle.GenCoin(t, k)
		hs, n := t.Bytes(32), uint32(t.U64())
		in, err := xcore.NewTxIn(hs, n, c.Amount, c.Lock, c.Redeem)
		if err != nil {
			panic(fmt.Sprint("NewTxIn: ", err))
		}
		s.tx.AddInput(in)
		s.ins = append(s.ins, in)
		s.coins = append(s.coins, c)
		s.o.In = append(s.o.In, oracle.TxIn{Hash: hs, Index: n, Seq: 0xffffffff})
		s.desc += fmt.Sprintf(" kind%d/%d-of-%d", k, c.M, len(c.Keys))
	}
	for i := 0; i < 1+t.R.Intn(4); i++ {
		o := oracle.TxOut{Value: t.U64(), Script: t.Bytes(t.R.Intn(40))}
		s.o.Out = append(s.o.Out, o)
		s.tx.AddOutput(xcore.NewTxOut(o.Value, o.Script))
	}
	return s
}

func prv(ks []*oracle.Key) (r []*xcrypto.PrvKey) {
	for _, k := range ks {
		r = append(r, k.Prv)
	}
	return
}

// check compares the embedded unlocking data of input i with what the kind prescribes.
func (s *scene) check(p *oracle.Tx, i int, ks []*oracle.Key, ht uint32) string {
	c := s.coins[i]
	in := p.In[i]
	items := in.Wit
	if !c.Wit() {
		if len(in.Wit) != 0 {
			return "a witness on a non-witness input"
		}
		ins, ok, _ := oracle.Parse(in.Script)
		if !ok {
			return fmt.Sprintf("malformed unlocking script %x", in.Script)
		}
		for _, x := range ins {
			if x.Op > 0x4e {
				return fmt.Sprintf("not only pushes: %x", in.Script)
			}
			items = append(items, x.Data)
		}
		var b []byte
		for _, x := range items {
			b = append(b, oracle.Push(x)...)
		}
		if !bytes.Equal(b, in.Script) {
			return fmt.Sprintf("not canonical pushes: %x", in.Script)
		}
	} else if len(in.Script) != 0 {
		return fmt.Sprintf("unlocking script %x on a witness input", in.Script)
	}
	var sigs [][]byte
	if c.Kind == 0 || c.Kind == 2 {
		if len(items) != 2 || !bytes.Equal(items[1], c.Pub(ks[0])) {
			return fmt.Sprintf("unlocking items %x", items)
		}
		sigs = items[:1]
	} else {
		if len(items) != c.M+2 || len(items[0]) != 0 || !bytes.Equal(items[len(items)-1], c.Redeem) {
			return fmt.Sprintf("unlocking items %x", items)
		}
		sigs = items[1 : len(items)-1]
	}
	for k, sig := range sigs {
		if len(sig) == 0 || sig[len(sig)-1] != byte(ht) {
			return fmt.Sprintf("signature %x does not end with its hash type %#x", sig, ht)
		}
		if !c.SigOK(p, i, sig, c.Pub(ks[k])) {
			return fmt.Sprintf("signature %d of input %d: %x is not one by its key over the signature hash", k, i, sig)
		}
	}
	return ""
}

var types = []uint32{1, 1, 1, 1, 2, 3, 0x81, 0x82, 0x83}

func main() {
	h.Main("C14", func(t *h.T) {
		for i := 0; i < t.N(160) && t.Time(0.7); i++ {
			var kinds []int
			for k := 0; k < 1+t.R.Intn(4); k++ {
				kinds = append(kinds, t.R.Intn(4))
			}
			if i < 4 {
				kinds = []int{i}
			}
			s := build(t, kinds...)
			order := t.R.Perm(len(kinds))
			ht := make([]uint32, len(kinds))
			used := make([][]*oracle.Key, len(kinds))
			mode := t.R.Intn(3)
			for j := range ht {
				ht[j] = types[t.R.Intn(len(types))]
				if ht[j]&0x1f == 3 && j >= len(s.o.Out) {
					ht[j] = 1
				}
				used[j] = s.coins[j].Pick(t)
				s.desc += fmt.Sprintf(" type=%#x", ht[j])
			}
			t.Case("sign", fmt.Sprintf("%s order=%v mode=%d outs=%d", s.desc, order, mode, len(s.o.Out)), func() string {
				for _, j := range order {
					c := s.coins[j]
					var err error
					switch {
					case mode == 1 && c.Comp && (c.Kind == 0 || c.Kind == 2):
						// a signature made elsewhere
						hash := s.tx.RawSignatureHash(j, xcore.SigHashType(ht[j]))
						if c.Wit() {
							hash = s.tx.WitnessV0SignatureHash(j, xcore.SigHashType(ht[j]))
						}
						r, sv := oracle.Sign(used[j][0].D, hash)
						buf := append(oracle.DER(r, sv), 0xEE, 0xEE)
						sig := buf[:len(buf)-2]
						err = s.tx.EmbedIdxEcdsaSignature(j, used[j][0].Prv.PubKey(), sig, xcore.SigHashType(ht[j]))
						if buf[len(buf)-2] != 0xEE {
							return "embedding a signature writes behind the caller's slice"
						}
					case mode == 2:
						var ps []xcore.PubKeySign
						for _, k := range used[j] {
							f := s.tx.RawSignature
							if c.Wit() {
								f = s.tx.WitnessSignature
							}
							sg, e := f(j, xcore.SigHashType(ht[j]), k.Prv)
							if e != nil {
								return fmt.Sprint("signature: ", e)
							}
							ps = append(ps, xcore.PubKeySign{PubKey: c.Pub(k), Signature: sg})
						}
						err = s.tx.EmbedIdxSignature(j, ps)
					default:
						err = s.tx.SignIndex(j, c.Comp, xcore.SigHashType(ht[j]), prv(used[j])...)
					}
					if err != nil {
						return fmt.Sprintf("signing input %d fails: %v", j, err)
					}
				}
				if err := s.tx.Verify(); err != nil {
					return fmt.Sprint("the signed transaction does not verify: ", err)
				}
				b := s.tx.Serialize()
				wit := false
				for _, c := range s.coins {
					wit = wit || c.Wit()
				}
				p, err := oracle.ParseTx(b, wit)
				if err != nil || !bytes.Equal(p.Bytes(true), b) {
					return fmt.Sprintf("the signed transaction's bytes: %v %x", err, b)
				}
				for j := range s.coins {
					if m := s.check(p, j, used[j], ht[j]); m != "" {
						return fmt.Sprintf("input %d: %s", j, m)
					}
					p2 := *p
					p2.In = append([]oracle.TxIn(nil), p.In...)
				}
				bare := *p
				bare.In = append([]oracle.TxIn(nil), p.In...)
				for j := range bare.In {
					bare.In[j].Script, bare.In[j].Wit = nil, nil
				}
				if !bytes.Equal(bare.Bytes(true), s.o.Bytes(true)) {
					return fmt.Sprintf("signing changes other parts: %x, was %x", bare.Bytes(true), s.o.Bytes(true))
				}
				// the parsed one verifies too
				q := xcore.NewTransaction()
				if wit {
					err = q.Deserialize(b)
				} else {
					err = q.DeserializeNoWitness(b)
				}
				if err != nil {
					return fmt.Sprint("cannot parse it: ", err)
				}
				for j, c := range s.coins {
					if err := q.SetTxIn(j, c.Amount, c.Lock, c.Redeem); err != nil {
						return fmt.Sprint("SetTxIn: ", err)
					}
				}
				if err := q.Verify(); err != nil {
					return fmt.Sprint("the parsed transaction does not verify: ", err)
				}
				if !bytes.Equal(q.Serialize(), b) {
					return "setting the inputs changes the parsed transaction"
				}
				return ""
			})
		}
		// errors
		for i := 0; i < t.N(120) && t.Time(0.95); i++ {
			kind := i % 4
			s := build(t, kind, t.R.Intn(4))
			c := s.coins[0]
			what := t.R.Intn(6)
			if i < 24 {
				what = i / 4
			}
			t.Case("error", fmt.Sprintf("%s what=%d", s.desc, what), func() string {
				var err error
				ks := prv(c.Pick(t))
				f := func(idx int, keys ...*xcrypto.PrvKey) error {
					return s.tx.SignIndex(idx, c.Comp, xcore.SigHashAll, keys...)
				}
				switch what {
				case 0:
					for _, idx := range []int{-1, 2, 3, 1 << 60, -1 << 60} {
						if f(idx, ks...) == nil || s.tx.EmbedIdxSignature(idx, []xcore.PubKeySign{{PubKey: []byte{1}, Signature: []byte{2}}}) == nil ||
							s.tx.EmbedIdxEcdsaSignature(idx, ks[0].PubKey(), []byte{1}, 1) == nil || s.tx.SetTxIn(idx, 1, c.Lock, c.Redeem) == nil {
							return fmt.Sprintf("index %d is no error", idx)
						}
					}
					return ""
				case 1:
					err = f(0)
				case 2:
					for len(ks) <= c.M {
						ks = append(ks, oracle.Keys(t)[t.R.Intn(20)].Prv)
					}
					err = f(0, ks...)
				case 3:
					if c.M < 2 {
						return ""
					}
					err = f(0, ks[1:]...)
				case 4:
					err = s.tx.EmbedIdxSignature(0, nil)
				case 5:
					if kind == 0 || kind == 2 {
						return ""
					}
					s.ins[0].RedeemScript = append([]byte{0x51}, c.Redeem...)
					err = f(0, ks...)
				}
				if err == nil {
					return fmt.Sprintf("no error; unlocking script %x, witness %x", s.ins[0].RawUnlockingScript, s.ins[0].Witness)
				}
				return ""
			})
		}
	})
}
