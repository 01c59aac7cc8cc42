package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

var prvID, pubID = []byte{0x04, 0x88, 0xad, 0xe4}, []byte{0x04, 0x88, 0xb2, 0x1e}

func text(k *oracle.XKey) string {
	if k.D != nil {
		return k.Text(prvID)
	}
	return k.Text(pubID)
}

func same(k *bip32.HDKey, err error, o *oracle.XKey) string {
	if o == nil {
		if err == nil {
			return "derived " + k.ToString(network.MainNet) + ", should be an error"
		}
		if k != nil {
			return "key and error"
		}
		return ""
	}
	if err != nil {
		return "error " + err.Error() + ", should derive " + text(o)
	}
	if g := k.ToString(network.MainNet); g != text(o) {
		return "derived " + g + ", should be " + text(o)
	}
	if p := k.PublicKey(); p == nil || !oracle.Eq(oracle.Pt{X: p.X, Y: p.Y}, o.Q) {
		return fmt.Sprintf("public key is %v, should be %v", p, o.Q)
	}
	if o.D != nil {
		if p := k.PrivateKey(); p == nil || p.D.Cmp(o.D) != 0 {
			return fmt.Sprintf("private key is %v, should be %x", p, o.D)
		}
	}
	return ""
}

// gen makes a key from any field values, through its text.
func gen(t *h.T) *oracle.XKey {
	k := &oracle.XKey{Chain: t.Bytes(32), FP: t.Bytes(4), Num: uint32(t.U64()), Depth: byte(t.R.Intn(4))}
	switch t.R.Intn(4) {
	case 0:
		k.D = big.NewInt(int64(1 + t.R.Intn(300)))
	case 1:
		k.D = new(big.Int).Sub(oracle.N, big.NewInt(int64(1+t.R.Intn(300))))
	case 2:
		k.D = new(big.Int).Rsh(oracle.Int(t.Bytes(32)), uint(1+t.R.Intn(40)))
	default:
		k.D = new(big.Int).Mod(oracle.Int(t.Bytes(32)), oracle.N)
	}
	if k.D.Sign() == 0 {
		k.D.SetInt64(1)
	}
	k.Q = oracle.Mul(oracle.G, k.D)
	if t.R.Intn(4) == 0 {
		k.Depth = byte(253 + t.R.Intn(3))
	}
	if t.R.Intn(3) == 0 {
		return k.Pub()
	}
	return k
}

func real(o *oracle.XKey) (*bip32.HDKey, string) {
	k, err := bip32.NewHDKeyFromString(text(o))
	if err != nil {
		return nil, "cannot parse " + text(o) + ": " + err.Error()
	}
	return k, ""
}

func index(t *h.T) uint32 {
	c := []uint32{0, 1, 2, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<31 + 256, 1<<32 - 1}
	if t.R.Intn(2) == 0 {
		return c[t.R.Intn(len(c))]
	}
	return uint32(t.R.Uint64())
}

// step derives what one path step names; ok false: it names nothing; either: an error is fine too.
func step(s string) (n uint32, ok, either bool) {
	hard := strings.HasSuffix(s, "'")
	d := strings.TrimSuffix(s, "'")
	if strings.HasSuffix(s, "h") || strings.HasSuffix(s, "H") {
		hard, either, d = true, true, s[:len(s)-1]
	}
	if strings.HasPrefix(d, "+") {
		either, d = true, d[1:]
	}
	if d == "" {
		return 0, false, false
	}
	v := new(big.Int)
	for _, c := range d {
		if c < '0' || c > '9' {
			return 0, false, false
		}
		v.Mul(v, big.NewInt(10))
		v.Add(v, big.NewInt(int64(c-'0')))
	}
	either = either || len(d) > 1 && d[0] == '0'
	if v.Cmp(big.NewInt(1<<31)) >= 0 {
		if hard || v.Cmp(big.NewInt(1<<32)) >= 0 {
			return 0, false, false
		}
		return uint32(v.Uint64()), true, true
	}
	n = uint32(v.Uint64())
	if hard {
		n += 1 << 31
	}
	return n, true, either
}

func main() {
	h.Main("C17", func(t *h.T) {
		for i := 0; i < t.N(400) && t.Time(0.3); i++ {
			o, n := gen(t), index(t)
			t.Case("child", fmt.Sprintf("%s index %d", text(o), n), func() string {
				k, m := real(o)
				if m != "" {
					return m
				}
				c, err := k.Derive(n)
				if m := same(c, err, o.Child(n)); m != "" {
					return m
				}
				c, err = k.Derive(n)
				if m := same(c, err, o.Child(n)); m != "" {
					return "second time: " + m
				}
				if k.ToString(network.MainNet) != text(o) {
					return "the parent was changed to " + k.ToString(network.MainNet)
				}
				if o.D != nil {
					// the public side
					p := k.HDPublicKey()
					if p.ToString(network.MainNet) != text(o.Pub()) {
						return "public half is " + p.ToString(network.MainNet) + ", should be " + text(o.Pub())
					}
					pc, err := p.Derive(n)
					if m := same(pc, err, o.Pub().Child(n)); m != "" {
						return "public half: " + m
					}
					if o.Child(n) != nil && n < 1<<31 && pc.ToString(network.MainNet) != c.HDPublicKey().ToString(network.MainNet) {
						return "public derivation differs from the public half of the private one"
					}
				}
				return ""
			})
		}
		// master keys and chains
		for i := 0; i < t.N(60) && t.Time(0.5); i++ {
			seed := t.Bytes([]int{16, 20, 32, 33, 63, 64, 128, 129, 256}[t.R.Intn(9)])
			var ix []uint32
			for j := 0; j < 1+t.R.Intn(4); j++ {
				ix = append(ix, index(t))
			}
			t.Case("chain", fmt.Sprintf("seed %x path %v", seed, ix), func() string {
				o, k := oracle.Master(seed), bip32.NewHDKey(seed)
				if o == nil || k == nil {
					return ""
				}
				if m := same(k, nil, o); m != "" {
					return "master: " + m
				}
				path := "m"
				root := k
				for _, n := range ix {
					o = o.Child(n)
					var err error
					k, err = k.Derive(n)
					if m := same(k, err, o); m != "" || o == nil {
						return m
					}
					if n >= 1<<31 {
						path += fmt.Sprintf("/%d'", n-1<<31)
					} else {
						path += fmt.Sprintf("/%d", n)
					}
				}
				p, err := root.DeriveByPath(path)
				if m := same(p, err, o); m != "" {
					return path + ": " + m
				}
				return ""
			})
		}
		t.Case("random key", "NewHDKeyRand", func() string {
			a, e1 := bip32.NewHDKeyRand()
			b, e2 := bip32.NewHDKeyRand()
			if e1 != nil || e2 != nil || a == nil || b == nil || a.ToString(network.MainNet) == b.ToString(network.MainNet) {
				return "not two different keys"
			}
			return ""
		})
		// paths
		pieces := []string{"", "m", "0", "1", "0'", "1'", "'", "''", "0''", "2147483647", "2147483647'", "2147483648", "2147483648'", "2147483649'", "4294967295", "4294967295'", "4294967296", "4294967296'", "4294967297", "18446744073709551616", "18446744073709551617'", "-1", "-1'", "+1", " 1", "1 ", "0x1", "1e1", "1_0", "1h", "1H", "h", "a", "M", "007", "00", "0.5", "\u0661", "\xff", "1'1", "44'", "*", "2147483648h"}
		fixed := []string{"", "/", "//", "m", "m/", "m//", "m//1", "m/1/", "/m", "/0", "0", "0/1", "M/0", "mm/0", "m'/0", "m0", "m /0", "m/0'/1/2'/2/1000000000", "m/-0", "m/0/'", "m\x00/0", "m/m", "m/m/0"}
		sec := oracle.Master([]byte("0123456789abcdef"))
		for i := 0; i < t.N(500)+len(fixed) && t.Time(0.9); i++ {
			var path string
			if i < len(fixed) {
				path = fixed[i]
			} else {
				path = "m"
				if t.R.Intn(20) == 0 {
					path = pieces[t.R.Intn(len(pieces))]
				}
				for j := 0; j < 1+t.R.Intn(3); j++ {
					if t.R.Intn(3) == 0 {
						path += fmt.Sprintf("/%d%s", t.R.Intn(1<<31), []string{"", "'"}[t.R.Intn(2)])
					} else {
						path += "/" + pieces[t.R.Intn(len(pieces))]
					}
				}
			}
			o := sec
			if t.R.Intn(3) == 0 {
				o = sec.Pub()
			}
			if t.R.Intn(12) == 0 {
				c := *o
				c.Depth = byte(252 + t.R.Intn(4))
				o = &c
			}
			t.Case("path", fmt.Sprintf("%q from %s", path, text(o)), func() string {
				k, m := real(o)
				if m != "" {
					return m
				}
				want, either := o, false
				if path != "" {
					steps := strings.Split(path, "/")
					if steps[0] != "m" {
						want = nil
					}
					for _, s := range steps[1:] {
						n, ok, e := step(s)
						either = either || e
						if !ok {
							want = nil
						}
						if want != nil {
							want = want.Child(n)
						}
					}
				}
				got, err := k.DeriveByPath(path)
				if err != nil && (either || path == "" || strings.Trim(path, "m/") == "") {
					return ""
				}
				return same(got, err, want)
			})
		}
	})
}
