package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

type dest struct {
	kind  int
	hash  []byte
	value uint64
}

func (d dest) lock() []byte {
	switch d.kind {
	case 0:
		return oracle.P2PKH(d.hash)
	case 1:
		return append(append([]byte{0xa9, 20}, d.hash...), 0x87)
	}
	return append([]byte{0, byte(len(d.hash))}, d.hash...)
}

func (d dest) addr() xcore.Address {
	switch d.kind {
	case 0:
		return xcore.NewPayToPubKeyHashAddress(d.hash)
	case 1:
		return xcore.NewPayToScriptHashAddress(d.hash)
	case 2:
		return xcore.NewPayToWitnessV0PubKeyHashAddress(d.hash)
	}
	return xcore.NewPayToWitnessV0ScriptHashAddress(d.hash)
}

func gendest(t *h.T) dest {
	d := dest{kind: t.R.Intn(4)}
	d.hash = t.Bytes(20)
	if d.kind == 3 {
		d.hash = t.Bytes(32)
	}
	return d
}

const max63 = 1<<63 - 1

// estimate is the size the relay fee is charged for: worst-case P2PKH inputs,
// witness inputs counting their witness only, all outputs with their scripts.
func varlen(n int) int {
	switch {
	case n < 253:
		return 1
	case n < 65536:
		return 3
	}
	return 5
}

type plan struct {
	coins  []*oracle.Coin
	ids    [][]byte
	ns     []uint32
	outs   []dest
	change *dest
	nilch  bool
	send   uint64
	setSnd bool
	relay  int64
	max    int64
	setMax bool
	push   [][]byte
	sign   bool
	lock   uint32
	layout int
}

func (p *plan) String() string {
	s := fmt.Sprintf("layout %d sign %v lock %d sendfees %v(%v) relay %d maxfees %v(%v) push %x;", p.layout, p.sign, p.lock, p.send, p.setSnd, p.relay, p.max, p.setMax, p.push)
	for i, c := range p.coins {
		s += fmt.Sprintf(" in{kind %d value %d txid %x n %d lock %x}", c.Kind, c.Amount, p.ids[i], p.ns[i], c.Lock)
	}
	for _, o := range p.outs {
		s += fmt.Sprintf(" out{kind %d value %d hash %x}", o.kind, o.value, o.hash)
	}
	if p.change != nil {
		s += fmt.Sprintf(" change{kind %d hash %x}", p.change.kind, p.change.hash)
	}
	if p.nilch {
		s += " change nil"
	}
	return s
}

func rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i, x := range b {
		r[len(b)-1-i] = x
	}
	return r
}

func (p *plan) build() (*xcore.Transaction, error) {
	b := xcore.NewTransactionBuilder()
	addIn := func(i int) {
		c := p.coins[i]
		coins := xcore.NewCoinBuilder().AddOutput(fmt.Sprintf("%x", rev(p.ids[i])), p.ns[i], c.Amount, fmt.Sprintf("%x", c.Lock)).ToCoins()
		b.AddCoin(coins[len(coins)-1])
		if c.Redeem != nil {
			b.SetRedeemScript(c.Redeem)
		}
		if p.sign {
			var ks []*xcrypto.PrvKey
			for k := 0; k < c.M; k++ {
				ks = append(ks, c.Keys[k].Prv)
			}
			b.AddKeys(ks...)
		}
		if !c.Comp {
			b.SetPubKeyUncompressed()
		}
	}
	addOut := func(i int) { b.To(p.outs[i].addr(), p.outs[i].value) }
	if p.layout == 0 {
		// one group per input and output
		first := true
		then := func() {
			if !first {
				b.Then()
			}
			first = false
		}
		for i := range p.coins {
			then()
			addIn(i)
		}
		for i := range p.outs {
			then()
			addOut(i)
		}
	} else {
		n := len(p.coins)
		if len(p.outs) > n {
			n = len(p.outs)
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				b.Then()
			}
			if i < len(p.outs) {
				addOut(i)
			}
			if i < len(p.coins) {
				addIn(i)
			}
		}
	}
	if p.change != nil {
		b.SetChange(p.change.addr())
	} else if p.nilch {
		b.SetChange(nil)
	}
	if p.setSnd {
		b.SendFees(p.send)
	}
	if p.relay != 0 {
		b.SetRelayFeePerKb(p.relay)
	}
	if p.setMax {
		b.SetMaxFees(p.max)
	}
	if p.lock != 0 {
		b.SetLockTime(p.lock)
	}
	for _, d := range p.push {
		b.AddPushData(d)
	}
	if p.sign {
		b.Sign()
	}
	return b.BuildTransaction()
}

func big64(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

func (p *plan) check() string {
	in, out := new(big.Int), new(big.Int)
	wrap := false
	for _, c := range p.coins {
		in.Add(in, big64(c.Amount))
	}
	for _, o := range p.outs {
		out.Add(out, big64(o.value))
	}
	lim := big64(max63)
	wrap = in.Cmp(lim) > 0 || out.Cmp(lim) > 0
	// the fee
	fee := big64(1000)
	if p.setSnd {
		fee = big64(p.send)
	}
	if p.relay > 0 {
		base, wit, any := 8+varlen(len(p.coins))+varlen(len(p.outs)), 0, false
		for _, c := range p.coins {
			any = any || c.Wit()
		}
		for _, c := range p.coins {
			if c.Wit() {
				wit += 3
			} else {
				base += 149
				if any {
					wit++
				}
			}
		}
		for _, o := range p.outs {
			base += 8 + len(o.lock())
		}
		size := (base*4 + wit) / 4
		for _, d := range p.push {
			size += len(d)
		}
		fee = new(big.Int).Mul(big.NewInt(p.relay), big.NewInt(int64(size)))
		fee.Div(fee, big.NewInt(1000))
	}
	maxf := int64(100000000)
	if p.setMax {
		maxf = p.max
	}
	rest := new(big.Int).Sub(in, out)
	why := ""
	switch {
	case len(p.coins) == 0:
		why = "no inputs"
	case len(p.outs) == 0:
		why = "no outputs"
	case rest.Sign() < 0:
		why = "inputs below outputs"
	}
	tx, err := p.build()
	if err != nil {
		if tx != nil {
			return "transaction and error"
		}
		left := new(big.Int).Sub(rest, fee)
		slack := new(big.Int).Add(big.NewInt(2), new(big.Int).Rsh(fee, 40))
		bad := why != "" || wrap || new(big.Int).Add(fee, slack).Cmp(big.NewInt(maxf)) > 0 || left.Cmp(slack) < 0 && p.relay > 0 || left.Sign() < 0 || (left.Sign() != 0 || p.relay > 0) && p.change == nil
		if !bad {
			return fmt.Sprint("in ", in, " out ", out, " fee ", fee, ": cannot build: ", err)
		}
		return ""
	}
	if why != "" {
		return "built although " + why
	}
	// what was built
	raw := tx.SerializeNoWitness()
	o, perr := oracle.ParseTx(raw, false)
	if perr != nil {
		return fmt.Sprintf("unreadable transaction %x: %v", raw, perr)
	}
	if len(o.In) != len(p.coins) {
		return fmt.Sprintf("%d inputs, should be %d", len(o.In), len(p.coins))
	}
	for i, x := range o.In {
		if !bytes.Equal(x.Hash, p.ids[i]) || x.Index != p.ns[i] {
			return fmt.Sprintf("input %d spends %x:%d, should be %x:%d", i, x.Hash, x.Index, p.ids[i], p.ns[i])
		}
	}
	if o.Lock != p.lock {
		return fmt.Sprintf("lock time %d, should be %d", o.Lock, p.lock)
	}
	sum := new(big.Int)
	for _, x := range o.Out {
		sum.Add(sum, big64(x.Value))
	}
	paid := new(big.Int).Sub(in, sum)
	if paid.Sign() < 0 {
		return fmt.Sprintf("outputs %v exceed inputs %v", sum, in)
	}
	if paid.Cmp(big.NewInt(maxf)) > 0 {
		return fmt.Sprintf("fee %v above the maximum %d", paid, maxf)
	}
	diff := new(big.Int).Sub(paid, fee)
	slack := new(big.Int).Add(big.NewInt(1), new(big.Int).Rsh(fee, 40))
	if p.relay <= 0 {
		slack.SetInt64(0)
	}
	if diff.CmpAbs(slack) > 0 {
		return fmt.Sprintf("fee %v, should be %v (inputs %v, outputs %v)", paid, fee, in, out)
	}
	k := 0
	next := func() (oracle.TxOut, bool) {
		if k < len(o.Out) {
			k++
			return o.Out[k-1], true
		}
		return oracle.TxOut{}, false
	}
	for i, d := range p.outs {
		x, ok := next()
		if !ok || x.Value != d.value || !bytes.Equal(x.Script, d.lock()) {
			return fmt.Sprintf("output %d is %d to %x, should be %d to %x", i, x.Value, x.Script, d.value, d.lock())
		}
	}
	left := new(big.Int).Sub(rest, paid)
	if left.Sign() > 0 {
		x, ok := next()
		if p.change == nil {
			return "change without a change address"
		}
		if !ok || big64(x.Value).Cmp(left) != 0 || !bytes.Equal(x.Script, p.change.lock()) {
			return fmt.Sprintf("change is %d to %x, should be %d to %x", x.Value, x.Script, left, p.change.lock())
		}
	}
	for _, d := range p.push {
		x, ok := next()
		want := append([]byte{0x6a}, oracle.Push(d)...)
		if !ok || x.Value != 0 || !bytes.Equal(x.Script, want) {
			return fmt.Sprintf("data output is %d to %x, should be 0 to %x", x.Value, x.Script, want)
		}
	}
	if k != len(o.Out) {
		return fmt.Sprintf("%d outputs, should be %d", len(o.Out), k)
	}
	if !wrap && big.NewInt(int64(tx.Fees())).Cmp(paid) != 0 {
		return fmt.Sprintf("Fees() says %d, is %v", tx.Fees(), paid)
	}
	if p.sign {
		if err := tx.Verify(); err != nil {
			return fmt.Sprint("the signed transaction does not verify: ", err)
		}
	}
	return ""
}

func main() {
	h.Main("C15", func(t *h.T) {
		amount := func() uint64 {
			switch t.R.Intn(4) {
			case 0:
				return uint64(t.R.Int63n(3000))
			case 1:
				return uint64(t.R.Int63n(21e14))
			}
			return uint64(t.R.Int63n(1e9))
		}
		for i := 0; i < t.N(6000) && t.Time(0.8); i++ {
			p := &plan{layout: t.R.Intn(2)}
			huge := t.R.Intn(5) == 0
			p.sign = t.R.Intn(25) == 0
			ni, no := 1+t.R.Intn(4), 1+t.R.Intn(4)
			if t.R.Intn(60) == 0 {
				ni = 0
			}
			if t.R.Intn(60) == 0 {
				no = 0
			}
			if t.R.Intn(150) == 0 {
				no = 260
			}
			total := new(big.Int)
			for k := 0; k < ni; k++ {
				c := oracle.GenCoin(t, t.R.Intn(4))
				c.Amount = amount()
				if huge {
					c.Amount = t.U64()
				}
				total.Add(total, big64(c.Amount))
				p.coins = append(p.coins, c)
				p.ids = append(p.ids, t.Bytes(32))
				p.ns = append(p.ns, uint32(t.U64()))
			}
			for k := 0; k < no; k++ {
				d := gendest(t)
				d.value = amount()
				if huge {
					d.value = t.U64()
				}
				p.outs = append(p.outs, d)
			}
			p.setSnd = t.R.Intn(3) != 0
			if p.setSnd {
				p.send = amount()
				if t.R.Intn(8) == 0 {
					p.send = t.U64()
				}
				if t.R.Intn(8) == 0 {
					p.send = 0
				}
			}
			if t.R.Intn(3) == 0 {
				p.relay = int64(t.R.Intn(100000))
				if t.R.Intn(6) == 0 {
					p.relay = int64(t.U64())
				}
			}
			p.setMax = t.R.Intn(3) == 0
			if p.setMax {
				p.max = int64(amount())
				if t.R.Intn(5) == 0 {
					p.max = int64(t.U64())
				}
			}
			fee := uint64(1000)
			if p.setSnd {
				fee = p.send
			}
			if p.setMax && p.relay <= 0 && t.R.Intn(2) == 0 {
				// near the limit
				p.max = int64(fee) + int64(t.R.Intn(3)) - 1
			}
			// usually make it balance: the last output takes what remains, give or take one
			if no > 0 && t.R.Intn(4) != 0 {
				rest := new(big.Int).Set(total)
				for _, d := range p.outs[:no-1] {
					rest.Sub(rest, big64(d.value))
				}
				if t.R.Intn(6) != 0 {
					rest.Sub(rest, big64(fee))
				}
				switch t.R.Intn(4) {
				case 0:
				case 1:
					rest.Sub(rest, big.NewInt(1))
				case 2:
					rest.Add(rest, big.NewInt(1))
				case 3:
					rest.Sub(rest, big.NewInt(int64(t.R.Intn(100000))))
				}
				if rest.Sign() >= 0 && rest.IsUint64() {
					p.outs[no-1].value = rest.Uint64()
				}
				// wrapping sums
				if huge && t.R.Intn(3) == 0 {
					v := new(big.Int).Add(rest, new(big.Int).Lsh(big.NewInt(1), uint(63+t.R.Intn(2))))
					if v.Sign() >= 0 && v.IsUint64() {
						p.outs[no-1].value = v.Uint64()
					}
				}
			}
			if t.R.Intn(6) != 0 {
				d := gendest(t)
				p.change = &d
			} else if t.R.Intn(2) == 0 {
				p.nilch = true
			}
			for t.R.Intn(5) == 0 {
				p.push = append(p.push, t.Bytes(t.R.Intn(80)))
			}
			if t.R.Intn(4) == 0 {
				p.lock = uint32(t.U64())
			}
			t.Case("build", p.String(), p.check)
		}
	})
}
