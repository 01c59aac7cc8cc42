package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/keyfuse/tokucore/xvm"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

// check is a made-up signature scheme: a signature is good when it starts with the key's last byte.
func check(sig, pub []byte) bool {
	return len(sig) > 1 && len(pub) > 0 && sig[0] == pub[len(pub)-1]
}

func engine() *xvm.Engine {
	e := xvm.NewEngine()
	e.EnableDebug()
	e.SetSigHashFn(func(ht byte) ([]byte, error) { return []byte{ht, 1, 2, 3}, nil })
	e.SetSigVerifyFn(func(hash, sig, pub []byte) error {
		if len(hash) == 4 && len(sig) > 0 && len(pub) > 0 && sig[0] == pub[len(pub)-1] {
			return nil
		}
		return errors.New("bad signature")
	})
	return e
}

func trace(e *xvm.Engine) (r []string) {
	for _, x := range e.Traces() {
		r = append(r, x.Stack)
	}
	return
}

func cmp(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) || i >= len(want) {
			return fmt.Sprintf("%d instructions are executed, should be %d; stacks %q, should be %q", len(got), len(want), got, want)
		}
		if got[i] != want[i] {
			return fmt.Sprintf("stack after instruction %d: %s, should be %s (before: %q)", i, got[i], want[i], append([]string{""}, want[:i]...)[i])
		}
	}
	return ""
}

// execute compares one script's run, instruction by instruction.
func execute(s []byte, ret bool) string {
	vm := &oracle.VM{Check: check, Return: ret}
	werr := vm.Run(s)
	ok := werr == nil && vm.Final(true)
	e := engine()
	keep := append([]byte(nil), s...)
	err := e.Execute(s)
	if !bytes.Equal(keep, s) {
		return "executing changes the script"
	}
	if (err == nil) != ok {
		return fmt.Sprintf("execution: %v, should succeed: %v; stacks %q, should be %q", err, ok, trace(e), vm.Trace)
	}
	return cmp(trace(e), vm.Trace)
}

var ops = []byte{0x00, 0x4f, 0x51, 0x52, 0x53, 0x5f, 0x60, 0x63, 0x64, 0x67, 0x68, 0x6e, 0x6f, 0x75, 0x76, 0x7c, 0x82, 0x87, 0x88, 0x93, 0xa9, 0xac, 0xad, 0xae, 0xaf}

func gen(t *h.T, max int) []byte {
	var b []byte
	for n := t.R.Intn(max); n > 0; n-- {
		switch t.R.Intn(10) {
		case 0, 1, 2:
			b = append(b, oracle.Push(t.Bytes([]int{0, 1, 1, 2, 3, 4, 5, 20, 33, 75, 76}[t.R.Intn(11)]))...)
		case 3:
			d := oracle.Num(int64(t.U64()) >> uint(t.R.Intn(64)))
			b = append(append(b, byte(len(d))), d...)
			if len(d) == 0 {
				b[len(b)-1] = 0
			}
		case 4:
			d := t.Bytes(t.R.Intn(4))
			b = append(append(b, 0x4c, byte(len(d))), d...)
		case 5:
			b = append(b, [][]byte{{0x51, 0x63}, {0x00, 0x63}, {0x00, 0x64}, {0x67}, {0x68}}[t.R.Intn(5)]...)
		default:
			b = append(b, ops[t.R.Intn(len(ops))])
		}
	}
	return b
}

func main() {
	h.Main("C07", func(t *h.T) {
		t.CaseKey("op_return", "OP_RETURN", "516a", func() string { return execute([]byte{0x51, 0x6a}, true) })
		// every opcode on every small stack
		items := [][]byte{{}, {1}, {2}, {0x80}, {0x81}, {0, 0x80}, {0xff, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0xff}, {1, 2, 3, 4, 5}, {0x7f}, {1, 0}, {0, 1}, bytes.Repeat([]byte{3}, 130)}
		raw := func(d []byte) []byte {
			if len(d) > 75 {
				return append([]byte{0x4c, byte(len(d))}, d...)
			}
			return append([]byte{byte(len(d))}, d...)
		}
		for op := 0; op < 256; op++ {
			if op == 0x6a {
				continue
			}
			var st [][]byte
			st = append(st, nil)
			for _, a := range items {
				st = append(st, raw(a))
				for _, b := range items {
					st = append(st, append(append([]byte{2, 0xaa, 0xbb}, raw(a)...), raw(b)...))
				}
			}
			for k := 0; k < 20; k++ {
				var s []byte
				for n := t.R.Intn(9); n >= 0; n-- {
					s = append(s, raw(items[t.R.Intn(len(items))])...)
				}
				st = append(st, s)
			}
			for _, s := range st {
				for _, suf := range [][]byte{{}, {0x51}} {
					s := append(append(append([]byte(nil), s...), byte(op)), suf...)
					t.Case("opcode", h.Hex(s), func() string { return execute(s, false) })
					c := append(append([]byte{0x52, 0x53, 0x00, 0x63}, s...), 0x67, 0x54, 0x68)
					t.Case("not-taken", h.Hex(c), func() string { return execute(c, false) })
				}
			}
		}
		for i := 0; i < t.N(60000) && t.Time(0.6); i++ {
			s := gen(t, 14)
			t.Case("script", h.Hex(s), func() string { return execute(s, false) })
		}
		for i := 0; i < t.N(40000) && t.Time(0.8); i++ {
			s := t.Bytes(t.R.Intn(12))
			if bytes.IndexByte(s, 0x6a) >= 0 {
				continue
			}
			t.Case("bytes", h.Hex(s), func() string { return execute(s, false) })
		}
		// deep stacks, nested conditions, long runs
		for i := 0; i < t.N(200) && t.Time(0.9); i++ {
			var s []byte
			d := t.R.Intn(60)
			for k := 0; k < d; k++ {
				s = append(s, []byte{0x51, 0x00}[t.R.Intn(2)], 0x63)
				s = append(s, gen(t, 3)...)
			}
			for k := 0; k < d; k++ {
				if t.R.Intn(2) == 0 {
					s = append(s, 0x67)
				}
				s = append(s, gen(t, 3)...)
				s = append(s, 0x68)
			}
			s = append(s, 0x51)
			t.Case("nested", h.Hex(s), func() string { return execute(s, false) })
		}
		// two scripts
		for i := 0; i < t.N(30000) && t.Time(1); i++ {
			a, b := gen(t, 6), gen(t, 8)
			switch t.R.Intn(5) {
			case 0:
				b = append(append([]byte{0xa9, 20}, t.Bytes(20)...), 0x87)
			case 1:
				r := gen(t, 5)
				if len(r) > 1 {
					b = append(append([]byte{0xa9, 20}, oracle.Hash160(r)...), 0x87)
					a = append(a, oracle.Push(r)...)
				}
			}
			t.Case("verify", fmt.Sprintf("unlocking=%x locking=%x", a, b), func() string {
				ka, kb := append([]byte(nil), a...), append([]byte(nil), b...)
				err := engine().Verify(a, b)
				if !bytes.Equal(a, ka) || !bytes.Equal(b, kb) {
					return "verifying changes the scripts"
				}
				if want := oracle.Spend(a, b, check, true, false); (err == nil) != want {
					return fmt.Sprintf("verification: %v, should succeed: %v", err, want)
				}
				return ""
			})
		}
	})
}
