package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

type netw struct {
	net     *network.Network
	pkh, sh byte
	hrp     string
	name    string
}

var nets = []netw{{network.MainNet, 0, 5, "bc", "main"}, {network.TestNet, 0x6f, 0xc4, "tb", "test"}}

// render is the standard text; kind 0 p2pkh, 1 p2sh, 2 p2wpkh, 3 p2wsh.
func render(n netw, kind int, hash []byte) string {
	switch kind {
	case 0:
		return oracle.Base58Check(n.pkh, hash)
	case 1:
		return oracle.Base58Check(n.sh, hash)
	}
	return oracle.Bech32(n.hrp, append([]byte{0}, oracle.To5(hash)...))
}

func lock(kind int, h []byte) []byte {
	switch kind {
	case 0:
		return oracle.P2PKH(h)
	case 1:
		return append(append([]byte{0xa9, 20}, h...), 0x87)
	}
	return append([]byte{0, byte(len(h))}, h...)
}

func make4(kind int, hash []byte) xcore.Address {
	switch kind {
	case 0:
		return xcore.NewPayToPubKeyHashAddress(hash)
	case 1:
		return xcore.NewPayToScriptHashAddress(hash)
	case 2:
		return xcore.NewPayToWitnessV0PubKeyHashAddress(hash)
	}
	return xcore.NewPayToWitnessV0ScriptHashAddress(hash)
}

func kindOf(a xcore.Address) int {
	switch a.(type) {
	case *xcore.PayToPubKeyHashAddress:
		return 0
	case *xcore.PayToScriptHashAddress:
		return 1
	case *xcore.PayToWitnessV0PubKeyHashAddress:
		return 2
	case *xcore.PayToWitnessV0ScriptHashAddress:
		return 3
	}
	return -1
}

// isNil also sees a nil address inside the interface.
func isNil(a xcore.Address) bool {
	return a == nil || strings.HasSuffix(fmt.Sprintf("%#v", a), "(nil)")
}

func text(s string) string {
	for _, n := range nets {
		a, err := xcore.DecodeAddress(s, n.net)
		if err != nil {
			// the standard texts must be accepted
			if v, p, ok := oracle.Base58CheckDec(s); ok && len(p) == 20 && (v == n.pkh || v == n.sh) {
				return fmt.Sprintf("%q is refused on %s: %v", s, n.name, err)
			}
			if hrp, d, ok := oracle.Bech32Dec(s); ok && hrp == n.hrp && len(d) > 0 && d[0] == 0 && s == strings.ToLower(s) {
				if p, ok := oracle.To8(d[1:]); ok && (len(p) == 20 || len(p) == 32) {
					return fmt.Sprintf("%q is refused on %s: %v", s, n.name, err)
				}
			}
			continue
		}
		if isNil(a) {
			return fmt.Sprintf("%q decodes to nothing without an error on %s", s, n.name)
		}
		k := kindOf(a)
		if k < 0 {
			return fmt.Sprintf("%q decodes to an unknown kind on %s", s, n.name)
		}
		if r := a.ToString(n.net); !(r == s || strings.EqualFold(r, s) && k >= 2) {
			return fmt.Sprintf("%q decodes on %s to an address rendered %q", s, n.name, r)
		}
		if r := render(n, k, a.Hash160()); !strings.EqualFold(r, s) {
			return fmt.Sprintf("%q decodes on %s as kind %d with hash %x, whose text is %q", s, n.name, k, a.Hash160(), r)
		}
	}
	return ""
}

func addr(kind int, hash []byte) string {
	keep := append([]byte(nil), hash...)
	a := make4(kind, hash)
	want := 20
	if kind == 3 {
		want = 32
	}
	if len(hash) != want {
		if !isNil(a) {
			return fmt.Sprintf("a hash of %d bytes makes an address", len(hash))
		}
		return ""
	}
	if !bytes.Equal(a.Hash160(), keep) {
		return fmt.Sprintf("carries the hash %x", a.Hash160())
	}
	l, err := a.LockingScript()
	if err != nil || !bytes.Equal(l, lock(kind, keep)) {
		return fmt.Sprintf("locking script %x %v", l, err)
	}
	sc, err := xcore.ParseLockingScript(l)
	if err != nil || kindOf(sc.GetAddress()) != kind || !bytes.Equal(sc.GetAddress().Hash160(), keep) {
		return fmt.Sprintf("the locking script %x is read as another address: %v", l, err)
	}
	for i, n := range nets {
		s := a.ToString(n.net)
		if s != render(n, kind, keep) {
			return fmt.Sprintf("rendered %q on %s, should be %q", s, n.name, render(n, kind, keep))
		}
		b, err := xcore.DecodeAddress(s, n.net)
		if err != nil || kindOf(b) != kind || !bytes.Equal(b.Hash160(), keep) {
			return fmt.Sprintf("%q decodes to %v %v", s, b, err)
		}
		if c, err := xcore.DecodeAddress(s, nets[1-i].net); err == nil {
			return fmt.Sprintf("%q of %s is accepted on the other network: %v", s, n.name, c)
		}
		if m := text(s); m != "" {
			return m
		}
		if m := text(strings.ToUpper(s)); m != "" {
			return m
		}
	}
	// the address does not follow the caller's slice
	for i := range hash {
		hash[i] ^= 0xff
	}
	if !bytes.Equal(a.Hash160(), keep) {
		return "the address changes with the caller's slice"
	}
	return ""
}

func main() {
	h.Main("C04", func(t *h.T) {
		for i := 0; i < t.N(2500) && t.Time(0.5); i++ {
			kind := i % 4
			n := 20
			if kind == 3 {
				n = 32
			}
			if i%23 == 0 {
				n = []int{0, 1, 19, 21, 31, 33, 20, 32, 40}[t.R.Intn(9)]
			}
			hash := t.Bytes(n)
			t.Case("address", fmt.Sprintf("kind=%d hash=%x", kind, hash), func() string { return addr(kind, hash) })
		}
		for _, s := range []string{"", "1", "bc1", "bc1gmk9yu", "tb1", oracle.Bech32("bc", nil), oracle.Bech32("tb", nil), oracle.Bech32("bc", []byte{0}), "BC1", "bc1q", "3", "xx1", "1111111111"} {
			t.Case("text", fmt.Sprintf("%q", s), func() string { return text(s) })
		}
		for i := 0; i < t.N(8000) && t.Time(0.95); i++ {
			n := nets[t.R.Intn(2)]
			s := ""
			switch t.R.Intn(8) {
			case 0: // any version byte and size
				s = oracle.Base58Check(byte(t.R.Intn(256)), t.Bytes([]int{20, 20, 20, 0, 1, 19, 21, 32, 33}[t.R.Intn(9)]))
			case 1:
				s = oracle.Base58Check([]byte{0, 5, 0x6f, 0xc4}[t.R.Intn(4)], t.Bytes([]int{20, 20, 19, 21, 32}[t.R.Intn(5)]))
			case 2: // any witness version and program size
				v := byte([]int{0, 0, 1, 2, 16, 17, 31}[t.R.Intn(7)])
				s = oracle.Bech32(n.hrp, append([]byte{v}, oracle.To5(t.Bytes([]int{20, 32, 0, 1, 2, 19, 21, 31, 33, 40}[t.R.Intn(10)]))...))
			case 3: // bad padding
				d := append([]byte{0}, oracle.To5(t.Bytes([]int{20, 32}[t.R.Intn(2)]))...)
				if t.R.Intn(2) == 0 {
					d = append(d, 0)
				} else {
					d[len(d)-1] ^= 1
				}
				s = oracle.Bech32(n.hrp, d)
			case 4: // other human-readable parts
				hrp := []string{"bc1", "tb1", "bc1q", "b", "bcrt", "tbc", "bb", "tc", "1", "bc1qq"}[t.R.Intn(10)]
				s = oracle.Bech32(hrp, append([]byte{0}, oracle.To5(t.Bytes([]int{20, 32}[t.R.Intn(2)]))...))
			case 5:
				k := t.R.Intn(4)
				b := []byte(render(n, k, t.Bytes(20+12*(k/3))))
				b[t.R.Intn(len(b))] = "qpzry9x8gf2tvdw0s3jn54khce6mua7lABCDEFGH"[t.R.Intn(40)]
				s = string(b)
			case 6:
				k := t.R.Intn(4)
				s = render(n, k, t.Bytes(20+12*(k/3)))
				switch t.R.Intn(4) {
				case 0:
					s = strings.ToUpper(s)
				case 1:
					s = " " + s
				case 2:
					s = s + s[:1]
				default:
					s = s[:t.R.Intn(len(s))]
				}
			default:
				s = n.hrp + "1" + string(t.Bytes(t.R.Intn(30)))
			}
			t.Case("text", fmt.Sprintf("%q", s), func() string { return text(s) })
		}
	})
}
