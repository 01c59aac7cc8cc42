package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

var nets = []struct {
	n        *network.Network
	prv, pub []byte
}{
	{network.MainNet, []byte{0x04, 0x88, 0xad, 0xe4}, []byte{0x04, 0x88, 0xb2, 0x1e}},
	{network.TestNet, []byte{0x04, 0x35, 0x83, 0x94}, []byte{0x04, 0x35, 0x87, 0xcf}},
}

func text(o *oracle.XKey, n int) string {
	if o.D != nil {
		return o.Text(nets[n].prv)
	}
	return o.Text(nets[n].pub)
}

func gen(t *h.T) *oracle.XKey {
	k := &oracle.XKey{Chain: t.Bytes(32), FP: t.Bytes(4), Num: uint32(t.U64()), Depth: byte(t.U64())}
	switch t.R.Intn(4) {
	case 0:
		k.D = big.NewInt(int64(1 + t.R.Intn(300)))
	case 1:
		k.D = new(big.Int).Sub(oracle.N, big.NewInt(int64(1+t.R.Intn(300))))
	case 2:
		k.D = new(big.Int).Rsh(oracle.Int(t.Bytes(32)), uint(1+t.R.Intn(200)))
	default:
		k.D = new(big.Int).Mod(oracle.Int(t.Bytes(32)), oracle.N)
	}
	if k.D.Sign() == 0 {
		k.D.SetInt64(1)
	}
	k.Q = oracle.Mul(oracle.G, k.D)
	if t.R.Intn(3) == 0 {
		return k.Pub()
	}
	return k
}

// parse is what the text stands for, nil when it is not an extended key.
func parse(s string) (o *oracle.XKey, version []byte) {
	b, ok := oracle.Base58Dec(s)
	if !ok || len(b) != 82 || !bytes.Equal(oracle.DSha(b[:78])[:4], b[78:]) {
		return nil, nil
	}
	o = &oracle.XKey{Depth: b[4], FP: b[5:9], Num: uint32(oracle.Int(b[9:13]).Uint64()), Chain: b[13:45]}
	if b[45] == 0 {
		o.D = oracle.Int(b[46:78])
		if o.D.Sign() == 0 || o.D.Cmp(oracle.N) >= 0 {
			return nil, nil
		}
		o.Q = oracle.Mul(oracle.G, o.D)
	} else if o.Q, ok = oracle.ParsePub(b[45:78]); !ok {
		return nil, nil
	}
	return o, b[:4]
}

func known(v []byte, private bool) bool {
	for _, n := range nets {
		if private && bytes.Equal(v, n.prv) || !private && bytes.Equal(v, n.pub) {
			return true
		}
	}
	return false
}

func read(s string) string {
	o, v := parse(s)
	k, err := bip32.NewHDKeyFromString(s)
	if err != nil {
		if k != nil {
			return "key and error"
		}
		// text with another version may be refused
		if o != nil && known(v, o.D != nil) {
			return "cannot parse: " + err.Error()
		}
		return ""
	}
	if o == nil {
		return "parsed as " + k.ToString(network.MainNet) + ", should be an error"
	}
	for i, n := range nets {
		if g, w := k.ToString(n.n), text(o, i); g != w {
			return "renders as " + g + ", should be " + w
		}
	}
	if (k.PrivateKey() != nil) != (o.D != nil) || o.D != nil && k.PrivateKey().D.Cmp(o.D) != 0 {
		return fmt.Sprintf("private key is %v, should be %v", k.PrivateKey(), o.D)
	}
	if p := k.PublicKey(); p == nil || !oracle.Eq(oracle.Pt{X: p.X, Y: p.Y}, o.Q) {
		return fmt.Sprintf("public key is %v, should be %v", p, o.Q)
	}
	// every field counts in what is derived
	c, err := k.Derive(5)
	w := o.Child(5)
	if (err == nil) != (w != nil) {
		return fmt.Sprint("deriving: ", err)
	}
	if w != nil && c.ToString(network.MainNet) != text(w, 0) {
		return "child is " + c.ToString(network.MainNet) + ", should be " + text(w, 0)
	}
	return ""
}

func main() {
	h.Main("C18", func(t *h.T) {
		sum := func(b []byte) string { return oracle.Base58(append(b[:len(b):len(b)], oracle.DSha(b)[:4]...)) }
		for i := 0; i < t.N(300) && t.Time(0.5); i++ {
			n := t.R.Intn(2)
			s := text(gen(t), n)
			t.Case("text", s, func() string { return read(s) })
		}
		// fresh and derived keys
		for i := 0; i < t.N(40) && t.Time(0.6); i++ {
			seed := t.Bytes(16 + t.R.Intn(50))
			ix := uint32(t.U64())
			t.Case("fresh", fmt.Sprintf("seed %x child %d", seed, ix), func() string {
				o, k := oracle.Master(seed), bip32.NewHDKey(seed)
				for j := 0; j < 2; j++ {
					for m, n := range nets {
						if g, w := k.ToString(n.n), text(o, m); g != w {
							return "renders as " + g + ", should be " + w
						}
						if g, w := k.HDPublicKey().ToString(n.n), text(o.Pub(), m); g != w {
							return "public half renders as " + g + ", should be " + w
						}
					}
					var err error
					k, err = k.Derive(ix)
					if err != nil {
						return err.Error()
					}
					o = o.Child(ix)
				}
				return ""
			})
		}
		// damaged text
		for i := 0; i < t.N(1500) && t.Time(0.9); i++ {
			o := gen(t)
			n := t.R.Intn(2)
			v := nets[n].pub
			if o.D != nil {
				v = nets[n].prv
			}
			raw := o.Raw(v)
			var s, what string
			switch t.R.Intn(13) {
			case 0:
				b := []byte(oracle.Base58(append(raw, oracle.DSha(raw)[:4]...)))
				b[t.R.Intn(len(b))] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0OIl "[t.R.Intn(63)]
				s, what = string(b), "character"
			case 1:
				raw[t.R.Intn(78)] ^= 1 << uint(t.R.Intn(8))
				s, what = oracle.Base58(append(raw, oracle.DSha(o.Raw(v))[:4]...)), "bit"
			case 2:
				s, what = sum(raw[:t.R.Intn(78)]), "short"
			case 3:
				s, what = sum(append(raw, t.Bytes(1+t.R.Intn(4))...)), "long"
			case 4:
				copy(raw[45:], make([]byte, 33))
				s, what = sum(raw), "zero key"
			case 5:
				copy(raw[45:], append([]byte{0}, oracle.B32(new(big.Int).Add(oracle.N, big.NewInt(int64(t.R.Intn(3)))))...))
				s, what = sum(raw), "key at the order"
			case 6:
				copy(raw[45:], append([]byte{0}, bytes.Repeat([]byte{0xff}, 32)...))
				s, what = sum(raw), "key above the order"
			case 7:
				copy(raw[45:], append([]byte{byte(2 + t.R.Intn(2))}, t.Bytes(32)...))
				s, what = sum(raw), "some point"
			case 8:
				raw[45] = byte(t.R.Intn(256))
				s, what = sum(raw), "key prefix"
			case 9:
				copy(raw[45:], append([]byte{byte(2 + t.R.Intn(2))}, oracle.B32(new(big.Int).Add(oracle.P, big.NewInt(int64(t.R.Intn(5)))))...))
				s, what = sum(raw), "x above the field"
			case 10:
				c := oracle.DSha(raw)[:4]
				c[t.R.Intn(4)] ^= 1 << uint(t.R.Intn(8))
				s, what = oracle.Base58(append(raw, c...)), "checksum"
			case 11:
				s = []string{"", "1", "xprv", strings.Repeat("1", 82), strings.Repeat("1", 111), strings.Repeat("z", 111), "\x00", strings.Repeat("1", 50) + sum(raw)}[t.R.Intn(8)]
				what = "other text"
			default:
				copy(raw, t.Bytes(4))
				s, what = sum(raw), "version"
			}
			t.Case("damaged", what+": "+s, func() string { return read(s) })
		}
	})
}
