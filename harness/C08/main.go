package main

import (
	"bytes"
	"fmt"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

type scene struct {
	c  *oracle.Coin
	o  *oracle.Tx
	tx *xcore.Transaction
	in *xcore.TxIn
}

// build makes a transaction whose input 0 spends the coin and a second bare one.
func build(t *h.T, c *oracle.Coin) *scene {
	s := &scene{c: c, o: &oracle.Tx{Version: 2, Lock: uint32(t.U64())}, tx: xcore.NewTransaction()}
	s.tx.SetVersion(2)
	s.tx.SetLockTime(s.o.Lock)
	hs := t.Bytes(32)
	in, err := xcore.NewTxIn(hs, 3, c.Amount, c.Lock, c.Redeem)
	if err != nil {
		panic(fmt.Sprint("NewTxIn: ", err))
	}
	s.in = in
	s.tx.AddInput(in)
	s.o.In = append(s.o.In, oracle.TxIn{Hash: hs, Index: 3, Seq: 0xffffffff})
	for i := 0; i < 2; i++ {
		o := oracle.TxOut{Value: t.U64(), Script: t.Bytes(22)}
		s.o.Out = append(s.o.Out, o)
		s.tx.AddOutput(xcore.NewTxOut(o.Value, o.Script))
	}
	return s
}

// final is the script the engine runs for the coin.
func final(c *oracle.Coin) []byte {
	switch c.Kind {
	case 2:
		return oracle.P2PKH(c.Lock[2:])
	case 3:
		return append(append([]byte{0xa9, 20}, oracle.Hash160(c.Redeem)...), 0x87)
	}
	return c.Lock
}

func (s *scene) sign(k *oracle.Key, ht uint32) []byte {
	r, sv := oracle.Sign(k.D, s.c.SigHash(s.o, 0, ht))
	return append(oracle.DER(r, sv), byte(ht))
}

// authorized is the least that must be there: the revealed key or script and enough valid signatures.
func (s *scene) authorized(unlock []byte) string {
	c := s.c
	ins, _, _ := oracle.Parse(unlock)
	var d [][]byte
	for _, i := range ins {
		d = append(d, i.Data)
	}
	if c.Kind == 0 || c.Kind == 2 {
		want := c.Lock[3 : 3+20]
		if c.Kind == 2 {
			want = c.Lock[2:]
		}
		for _, p := range d {
			if bytes.Equal(oracle.Hash160(p), want) {
				for _, g := range d {
					if s.c.SigOK(s.o, 0, g, p) {
						return ""
					}
				}
				return "no valid signature by the revealed key"
			}
		}
		return "the key is not revealed"
	}
	for _, p := range d {
		if bytes.Equal(p, c.Redeem) {
			n := 0
			for _, k := range c.Keys {
				for _, g := range d {
					if len(g) > 60 && len(g) < 80 && s.c.SigOK(s.o, 0, g, c.Pub(k)) {
						n++
						break
					}
				}
			}
			if n < c.M {
				return fmt.Sprintf("%d valid signatures of %d", n, c.M)
			}
			return ""
		}
	}
	return "the script is not revealed"
}

func main() {
	h.Main("C08", func(t *h.T) {
		cat := func(p ...[]byte) []byte { return bytes.Join(p, nil) }
		trunc := [][]byte{{0x4c}, {0x4c, 25}, {0x4d, 25}, {0x4d, 25, 0}, {0x4e, 25, 0, 0, 0}, {25}, {23}, {75}, {0x4c, 255}}
		cond := [][]byte{{0x00, 0x63}, {0x51, 0x64}, {0x51, 0x63, 0x67}, {0x00, 0x64, 0x67}, {0x51, 0x63}, {0x00, 0x64}, {0x00, 0x63, 0x63}, {0x00, 0x63, 0x67}, {0x63}, {0x67}, {0x68},
			{0x00, 0x63, 0x68}, {0x51, 0x63, 0x68}, {0x00, 0x63, 0x51, 0x67, 0x52, 0x68}}
		misc := [][]byte{{0x00}, {0x51}, {0x60}, {0x4f}, {0x6a}, {0x51, 0x6a}, {0x75}, {0x76}, {0x7c}, {0x82}, {0x87}, {0x93}, {0xa9}, {0xab}, {0xba}, {0xff}, {0xac}, {0xad}, {0xae}, {0x50}}
		for i := 0; i < t.N(60) && t.Time(0.8); i++ {
			c := oracle.GenCoin(t, i%4)
			for len(c.Keys) > 5 {
				c = oracle.GenCoin(t, i%4)
			}
			s := build(t, c)
			hts := []uint32{1, 1, 2, 3, 0x81}
			var good [][]byte
			for _, k := range c.Pick(t) {
				good = append(good, oracle.Push(s.sign(k, hts[t.R.Intn(len(hts))])))
			}
			var tail []byte
			if c.Kind == 0 || c.Kind == 2 {
				tail = oracle.Push(c.Pub(c.Keys[0]))
			} else {
				good = append([][]byte{{0}}, good...)
				tail = oracle.Push(c.Redeem)
			}
			valid := append(append([][]byte(nil), good...), tail)
			var list [][][]byte
			list = append(list, valid, nil, [][]byte{tail}, good, [][]byte{{0x51}}, [][]byte{{0x51}, tail})
			for _, x := range append(append([][]byte{}, cond...), misc...) {
				list = append(list, [][]byte{x}, [][]byte{{0x51}, x}, append([][]byte{x}, valid...), append(append([][]byte(nil), valid...), x), [][]byte{{0x51}, x, tail})
			}
			for _, x := range trunc {
				list = append(list, [][]byte{x}, [][]byte{{0x51}, x}, append(append([][]byte(nil), valid...), x), [][]byte{{0x51}, tail, x})
			}
			// each element dropped, doubled, damaged or exchanged
			other := oracle.Keys(t)[t.R.Intn(24)]
			for k := range valid {
				drop := append(append([][]byte(nil), valid[:k]...), valid[k+1:]...)
				dbl := append(append(append([][]byte(nil), valid[:k+1]...), valid[k]), valid[k+1:]...)
				bad := append([][]byte(nil), valid...)
				b := append([]byte(nil), valid[k]...)
				b[len(b)-1-t.R.Intn((len(b)+1)/2)] ^= 1 << uint(t.R.Intn(8))
				bad[k] = b
				list = append(list, drop, dbl, bad)
				for _, repl := range [][]byte{{0}, {0x51}, oracle.Push(s.sign(other, 1)), oracle.Push(other.C), oracle.Push([]byte{0x51}), oracle.Push([]byte{0x30, 1}), oracle.Push(append([]byte{0x30, 6, 2, 1, 1, 2, 1, 1}, 1))} {
					x := append([][]byte(nil), valid...)
					x[k] = repl
					list = append(list, x)
				}
				if k > 0 {
					x := append([][]byte(nil), valid...)
					x[k], x[k-1] = x[k-1], x[k]
					list = append(list, x)
				}
				// a signature with another hash type byte
				if len(valid[k]) > 60 && len(valid[k]) < 80 {
					x := append([][]byte(nil), valid...)
					b := append([]byte(nil), valid[k]...)
					b[len(b)-1] ^= 3
					x[k] = b
					list = append(list, x)
				}
			}
			for j := 0; j < 40; j++ {
				var x [][]byte
				for n := t.R.Intn(6); n > 0; n-- {
					switch t.R.Intn(5) {
					case 0:
						x = append(x, cond[t.R.Intn(len(cond))])
					case 1:
						x = append(x, misc[t.R.Intn(len(misc))])
					case 2:
						x = append(x, valid[t.R.Intn(len(valid))])
					case 3:
						x = append(x, oracle.Push(t.Bytes(t.R.Intn(4))))
					default:
						x = append(x, valid...)
					}
				}
				if t.R.Intn(2) == 0 {
					x = append(x, tail)
				}
				list = append(list, x)
			}
			for n, parts := range list {
				unlock := cat(parts...)
				t.Case("spend", fmt.Sprintf("kind=%d %d-of-%d unlocking=%x", c.Kind, c.M, len(c.Keys), unlock), func() string {
					buf := append(append(make([]byte, 0, len(unlock)+64), unlock...), bytes.Repeat([]byte{0xEE}, 64)...)
					s.in.RawUnlockingScript = buf[:len(unlock)]
					err := s.tx.Verify()
					if buf[len(unlock)] != 0xEE {
						return "verifying writes behind the unlocking script"
					}
					if err == nil {
						if m := s.authorized(unlock); m != "" {
							return "the spend verifies: " + m
						}
					}
					want := oracle.Spend(unlock, final(c), func(sig, pub []byte) bool { return c.SigOK(s.o, 0, sig, pub) }, true, false)
					if (err == nil) != want {
						return fmt.Sprintf("verification: %v, the scripts succeed: %v", err, want)
					}
					if n == 0 && err != nil {
						return fmt.Sprint("the plain spend does not verify: ", err)
					}
					return ""
				})
			}
			s.in.RawUnlockingScript = cat(valid...)
			// through the bytes of a transaction
			var items [][]byte
			for _, x := range valid {
				ins, _, _ := oracle.Parse(x)
				items = append(items, ins[0].Data)
			}
			if c.Wit() {
				wl := [][][]byte{items, nil, items[:1], items[1:], append([][]byte{{}}, items...), append(append([][]byte(nil), items...), []byte{1}), {{1}, {0x51}}, {{0x51}}, {{}}, {{}, {}}, {{1}, {1}}}
				for k := range items {
					x := append([][]byte(nil), items...)
					x[k] = []byte{0x51}
					wl = append(wl, x)
					x = append([][]byte(nil), items...)
					x[k] = nil
					wl = append(wl, x)
				}
				for n, wit := range wl {
					for _, ownRedeem := range []bool{true, false} {
						redeem := c.Redeem
						if !ownRedeem {
							if c.Kind != 3 || len(wit) == 0 {
								continue
							}
							redeem = wit[len(wit)-1]
						}
						script := []byte(nil)
						if n == 1 {
							script = cat(valid...)
						}
						p := *s.o
						p.In = []oracle.TxIn{p.In[0]}
						p.In[0].Wit, p.In[0].Script = wit, script
						t.Case("witness", fmt.Sprintf("kind=%d script=%x witness=%x redeem=%x", c.Kind, script, wit, redeem), func() string {
							q := xcore.NewTransaction()
							b := p.Bytes(true)
							err := error(nil)
							if p.HasWit() {
								err = q.Deserialize(b)
							} else {
								err = q.DeserializeNoWitness(b)
							}
							if err != nil {
								return fmt.Sprint("cannot parse: ", err)
							}
							err = q.SetTxIn(0, c.Amount, c.Lock, redeem)
							if err == nil {
								err = q.Verify()
							}
							var u []byte
							for _, x := range wit {
								u = append(u, oracle.Push(x)...)
							}
							if c.Kind == 2 && len(wit) != 2 {
								u = nil
							}
							want := bytes.Equal(redeem, c.Redeem) && oracle.Spend(u, final(c), func(sig, pub []byte) bool { return c.SigOK(s.o, 0, sig, pub) }, true, false)
							if n == 1 && err != nil {
								return "" // an unlocking script in place of the witness may be refused
							}
							if (err == nil) != want && n != 1 {
								return fmt.Sprintf("verification: %v, the scripts succeed: %v", err, want)
							}
							if n == 0 && ownRedeem && err != nil {
								return fmt.Sprint("the plain spend does not verify: ", err)
							}
							return ""
						})
					}
				}
			}
			// signatures of type ALL over another transaction
			s2 := build(t, c)
			var sigs [][]byte
			if len(tail) != 0 && c.Kind%2 == 1 {
				sigs = append(sigs, []byte{0})
			}
			for _, k := range c.Pick(t) {
				sigs = append(sigs, oracle.Push(s2.sign(k, 1)))
			}
			s2.in.RawUnlockingScript = cat(append(sigs, tail)...)
			for e := 0; e < 10; e++ {
				t.Case("edited", fmt.Sprintf("kind=%d edit=%d unlocking=%x", c.Kind, e, s2.in.RawUnlockingScript), func() string {
					if err := s2.tx.Verify(); err != nil {
						return fmt.Sprint("the signed transaction does not verify: ", err)
					}
					undo := func() {}
					switch e {
					case 0:
						s2.in.Sequence--
						undo = func() { s2.in.Sequence++ }
					case 1:
						s2.in.Index++
						undo = func() { s2.in.Index-- }
					case 2:
						old := s2.in.Hash
						s2.in.Hash = t.Bytes(32)
						undo = func() { s2.in.Hash = old }
					case 3:
						if !c.Wit() {
							return ""
						}
						s2.in.Value++
						undo = func() { s2.in.Value-- }
					case 4:
						s2.tx.SetLockTime(s2.o.Lock + 1)
						undo = func() { s2.tx.SetLockTime(s2.o.Lock) }
					case 5:
						s2.tx.SetVersion(1)
						undo = func() { s2.tx.SetVersion(2) }
					case 8:
						s2.tx.AddOutput(xcore.NewTxOut(1, nil))
					case 9:
						s2.tx.AddInput(s2.in)
					default:
						return ""
					}
					if s2.tx.Verify() == nil {
						return "the changed transaction still verifies"
					}
					undo()
					return ""
				})
				if e == 8 {
					break
				}
			}
		}
		// any redeem script is executed
		pieces := [][]byte{{0x00}, {0x51}, {0x52}, {0x53}, {0x63}, {0x64}, {0x67}, {0x68}, {0x6e}, {0x6f}, {0x75}, {0x76}, {0x7c}, {0x82}, {0x87}, {0x88}, {0x93}, {0xa9}, {0xac}, {0xad}, {0x4f}, {1, 5}, {2, 1, 2}}
		for i := 0; i < t.N(4000) && t.Time(0.95); i++ {
			redeem := []byte{}
			switch t.R.Intn(4) {
			case 0:
				redeem = cat(oracle.Push(oracle.Keys(t)[0].C), []byte{0xac})
			case 1:
				redeem = cat([]byte{0x00})
			default:
				for n := 1 + t.R.Intn(5); n > 0; n-- {
					redeem = append(redeem, pieces[t.R.Intn(len(pieces))]...)
				}
			}
			if len(redeem) == 1 && (redeem[0] >= 1 && redeem[0] <= 16 || redeem[0] == 0x81) {
				continue
			}
			c := &oracle.Coin{Kind: 1, Comp: true, Redeem: redeem, Lock: append(append([]byte{0xa9, 20}, oracle.Hash160(redeem)...), 0x87), Amount: 5}
			if t.R.Intn(2) == 0 {
				c.Kind, c.Lock = 3, append([]byte{0, 32}, oracle.Sha(redeem)...)
			}
			s := build(t, c)
			var u []byte
			for n := t.R.Intn(4); n > 0; n-- {
				switch t.R.Intn(8) {
				case 0:
					u = append(u, pieces[t.R.Intn(len(pieces))]...)
				case 1:
					u = append(u, oracle.Push(s.sign(oracle.Keys(t)[t.R.Intn(2)], 1))...)
				default:
					u = append(u, oracle.Push([][]byte{nil, {1}, {2}, {3}, {5}, {1, 2}, {0x81}}[t.R.Intn(7)])...)
				}
			}
			u = append(u, oracle.Push(redeem)...)
			t.Case("redeem", fmt.Sprintf("kind=%d redeem=%x unlocking=%x", c.Kind, redeem, u), func() string {
				s.in.RawUnlockingScript = u
				err := s.tx.Verify()
				want := oracle.Spend(u, final(c), func(sig, pub []byte) bool { return c.SigOK(s.o, 0, sig, pub) }, true, false)
				if (err == nil) != want {
					return fmt.Sprintf("verification: %v, the scripts succeed: %v", err, want)
				}
				return ""
			})
		}
	})
}
