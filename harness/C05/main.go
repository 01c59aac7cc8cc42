package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/keyfuse/tokucore/xvm"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

func readBack(s, wantPush, d []byte) string {
	if !bytes.Equal(s, wantPush) {
		return fmt.Sprintf("script %x, want %x", cut(s), cut(wantPush))
	}
	r := xvm.NewScriptReader(s)
	i, err := r.NextInstruction()
	if err != nil || i == nil {
		return fmt.Sprintf("reading the push back: %v %v", i, err)
	}
	if i.OpCode() != s[0] {
		return fmt.Sprintf("read opcode %#x", i.OpCode())
	}
	got := i.Data()
	switch {
	case s[0] == 0x4f:
		got = []byte{0x81}
	case s[0] > 0x50 && s[0] <= 0x60:
		got = []byte{s[0] - 0x50}
	}
	if !bytes.Equal(got, d) {
		return fmt.Sprintf("read data %x, want %x", cut(got), cut(d))
	}
	if i, err = r.NextInstruction(); i != nil || err != nil {
		return "more than one instruction read"
	}
	return ""
}

func cut(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

func num(v int64) []byte {
	n := big.NewInt(v)
	m := new(big.Int).Abs(n).Bytes()
	var r []byte
	for i := len(m) - 1; i >= 0; i-- {
		r = append(r, m[i])
	}
	if len(r) > 0 && r[len(r)-1] >= 0x80 {
		r = append(r, 0)
	}
	if v < 0 {
		r[len(r)-1] |= 0x80
	}
	return r
}

func data(t *h.T, d []byte) {
	t.Case("data-push", fmt.Sprintf("len %d %x", len(d), cut(d)), func() string {
		in := append([]byte{}, d...)
		s, err := xvm.NewScriptBuilder().AddData(d).Script()
		if err != nil {
			return err.Error()
		}
		if !bytes.Equal(in, d) {
			return "the data was changed"
		}
		return readBack(s, oracle.Push(d), d)
	})
}

func intp(t *h.T, v int64) {
	t.Case("int-push", fmt.Sprint(v), func() string {
		s, err := xvm.NewScriptBuilder().AddInt64(v).Script()
		if err != nil {
			return err.Error()
		}
		return readBack(s, oracle.Push(num(v)), num(v))
	})
}

func script(t *h.T, s []byte) {
	t.Case("read", h.Hex(s), func() string {
		ins, ok, unk := oracle.Parse(s)
		keep := append([]byte{}, s...)
		got, err := xvm.NewScriptReader(s).AllInstructions()
		if !ok && err == nil {
			return "a push running past the end was read without an error"
		}
		if ok && !unk && err != nil {
			return "error on a well-formed script: " + err.Error()
		}
		if err == nil {
			if len(got) != len(ins) {
				return fmt.Sprintf("%d instructions, want %d", len(got), len(ins))
			}
			for k := range ins {
				if got[k].OpCode() != ins[k].Op || !bytes.Equal(got[k].Data(), ins[k].Data) {
					return fmt.Sprintf("instruction %d is %#x %x, want %#x %x", k, got[k].OpCode(), got[k].Data(), ins[k].Op, ins[k].Data)
				}
			}
		}
		// one instruction at a time covers the same bytes
		r := xvm.NewScriptReader(s)
		for k := 0; ; k++ {
			i, e := r.NextInstruction()
			if e != nil {
				if err == nil {
					return "NextInstruction fails where AllInstructions does not: " + e.Error()
				}
				break
			}
			if i == nil {
				if err != nil {
					return "NextInstruction reaches the end where AllInstructions fails"
				}
				break
			}
			if k >= len(ins) || i.OpCode() != ins[k].Op || !bytes.Equal(i.Data(), ins[k].Data) {
				return fmt.Sprintf("NextInstruction %d reads %#x %x", k, i.OpCode(), i.Data())
			}
		}
		xvm.DisasmString(s)
		xvm.NewScriptReader(s).DisasmRemaining()
		ops := map[byte]bool{0xab: true, 0x00: true, 0x4c: true}
		for _, i := range ins {
			ops[i.Op] = true
		}
		for op := range ops {
			rm := xvm.RemoveOpcode(s, op)
			var want []byte
			for _, i := range ins {
				if i.Op != op {
					want = append(want, i.Raw...)
				}
			}
			if err != nil {
				want = s
			}
			if !bytes.Equal(rm, want) {
				return fmt.Sprintf("RemoveOpcode %#x gives %x, want %x", op, rm, want)
			}
		}
		if !bytes.Equal(s, keep) {
			return "the script was changed"
		}
		return ""
	})
}

func main() {
	h.Main("C05", func(t *h.T) {
		for v := int64(-70000); v <= 70000; v++ {
			if v > -1200 && v < 1200 || v%97 == 0 || v < -65400 && v > -65700 || v > 32600 && v < 32900 || v > 65400 && v < 65700 {
				intp(t, v)
			}
		}
		for k := uint(0); k < 64; k++ {
			for d := int64(-2); d <= 2; d++ {
				intp(t, int64(1)<<k+d)
				intp(t, -(int64(1)<<k)+d)
			}
		}
		for b := 1; b < 256; b++ {
			data(t, []byte{byte(b)})
		}
		data(t, nil)
		for n := 2; n < 600; n++ {
			data(t, t.Bytes(n))
		}
		for _, n := range []int{65534, 65535, 65536, 65537, 70000, 131072, 1 << 20, 1<<24 - 1, 1 << 24} {
			data(t, t.Bytes(n))
		}
		for _, n := range []int{70000, 1<<23 + 1<<15 + 1<<7 + 3, 1 << 24} {
			d := t.Bytes(n)
			t.Case("remove-large", fmt.Sprint(n), func() string {
				s := append([]byte{0x76}, oracle.Push(d)...)
				if got := xvm.RemoveOpcode(append(append([]byte{}, s...), 0x76), 0x76); !bytes.Equal(got, s[1:]) {
					return fmt.Sprintf("removing OP_DUP around a push gives %x..., want %x...", cut(got), cut(s[1:]))
				}
				return ""
			})
		}
		// sequences of additions
		for k := 0; k < t.N(3000); k++ {
			b := xvm.NewScriptBuilder()
			var want []byte
			var what string
			n := 1 + t.R.Intn(6)
			for j := 0; j < n; j++ {
				switch t.R.Intn(4) {
				case 0:
					op := byte(t.R.Intn(256))
					b.AddOp(op)
					want = append(want, op)
					what += fmt.Sprintf("op %#x; ", op)
				case 1:
					v := int64(t.U64())
					b.AddInt64(v)
					want = append(want, oracle.Push(num(v))...)
					what += fmt.Sprintf("int %d; ", v)
				case 3:
					if t.R.Intn(10) == 0 {
						b.Reset()
						want = nil
						what += "reset; "
						break
					}
					fallthrough
				default:
					d := t.Bytes(t.Len(300, 0, 1, 75, 76, 255, 256))
					if len(d) == 1 && d[0] == 0 {
						d = nil
					}
					b.AddData(d)
					want = append(want, oracle.Push(d)...)
					what += fmt.Sprintf("data %x; ", d)
				}
			}
			t.Case("sequence", what, func() string {
				s, err := b.Script()
				if err != nil || !bytes.Equal(s, want) {
					return fmt.Sprintf("script %x (%v), want %x", s, err, want)
				}
				return ""
			})
		}
		// exhaustive short scripts
		for a := 0; a < 256; a++ {
			script(t, []byte{byte(a)})
			for b := 0; b < 256; b++ {
				script(t, []byte{byte(a), byte(b)})
			}
		}
		known := []byte{0, 0x4f}
		for k := 0; k < 256; k++ {
			if !oracle.Known[byte(k)] {
				continue
			}
			known = append(known, byte(k))
		}
		for k := 0; t.Time(0.8) && k < t.N(60000); k++ {
			var s []byte
			for j := t.R.Intn(8); j >= 0; j-- {
				switch t.R.Intn(6) {
				case 0:
					s = append(s, oracle.Push(t.Bytes(t.Len(90, 1, 20, 33, 75, 76)))...)
				case 1:
					n := t.Len(40, 0, 1, 2)
					s = append(append(s, 0x4c, byte(n)), t.Bytes(n)...)
				case 2:
					n := t.Len(300, 0, 1, 2)
					s = append(append(s, 0x4d, byte(n), byte(n>>8)), t.Bytes(n)...)
				case 3:
					n := t.Len(300, 0, 1, 2)
					s = append(append(s, 0x4e, byte(n), byte(n>>8), 0, 0), t.Bytes(n)...)
				case 4:
					s = append(s, 0xab)
				default:
					s = append(s, known[t.R.Intn(len(known))])
				}
			}
			switch t.R.Intn(6) {
			case 0:
				s = s[:t.R.Intn(len(s)+1)]
			case 1:
				s = append(s, [][]byte{{0x4c}, {0x4d, 1}, {0x4d}, {0x4e, 0xff, 0xff, 0xff, 0xff}, {0x4e, 0, 0, 0, 0x80}, {0x4e, 0xff, 0xff, 0xff, 0x7f, 1}, {75}}[t.R.Intn(7)]...)
			case 2:
				if len(s) > 0 {
					s[t.R.Intn(len(s))] = byte(t.R.Intn(256))
				}
			}
			script(t, s)
		}
	})
}
