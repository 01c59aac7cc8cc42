package oracle

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
)

// VM is the script interpreter's oracle.
type VM struct {
	Stack [][]byte
	// Check says whether sig (with its hash type byte) verifies under pub.
	Check func(sig, pub []byte) bool
	// Trace holds the stack after each instruction.
	Trace []string
	// Return makes OP_RETURN fail, as Bitcoin has it.
	Return bool
}

// Show formats a stack as the engine's trace does.
func Show(s [][]byte) string {
	if len(s) == 0 {
		return " <empty> "
	}
	r := ""
	for _, x := range s {
		if len(x) == 0 {
			r += " <empty> "
		} else {
			r += fmt.Sprintf(" <%x> ", x)
		}
	}
	return r
}

// True is a stack item's truth value.
func True(b []byte) bool {
	for i, x := range b {
		if x != 0 {
			return !(i == len(b)-1 && x == 0x80)
		}
	}
	return false
}

// Num encodes a script number.
func Num(n int64) []byte {
	if n == 0 {
		return nil
	}
	neg := n < 0
	u := uint64(n)
	if neg {
		u = -u
	}
	var b []byte
	for ; u > 0; u >>= 8 {
		b = append(b, byte(u))
	}
	if b[len(b)-1]&0x80 != 0 {
		b = append(b, 0)
	}
	if neg {
		b[len(b)-1] |= 0x80
	}
	return b
}

// ParseNum decodes a minimal script number of at most four bytes.
func ParseNum(b []byte) (int64, bool) {
	if len(b) > 4 {
		return 0, false
	}
	var v int64
	for i, x := range b {
		v |= int64(x) << (8 * uint(i))
	}
	if n := len(b); n > 0 && b[n-1]&0x80 != 0 {
		v = -(v &^ (0x80 << (8 * uint(n-1))))
	}
	return v, bytes.Equal(Num(v), b)
}

var errVM = errors.New("script fails")

func (vm *VM) pop() []byte {
	if len(vm.Stack) == 0 {
		panic(errVM)
	}
	x := vm.Stack[len(vm.Stack)-1]
	vm.Stack = vm.Stack[: len(vm.Stack)-1 : len(vm.Stack)-1]
	return x
}
func (vm *VM) push(b []byte) { vm.Stack = append(vm.Stack[:len(vm.Stack):len(vm.Stack)], b) }
func (vm *VM) num() int64 {
	n, ok := ParseNum(vm.pop())
	if !ok {
		panic(errVM)
	}
	return n
}
func boolean(b bool) []byte {
	if b {
		return []byte{1}
	}
	return nil
}
func (vm *VM) verify() {
	if !True(vm.pop()) {
		panic(errVM)
	}
}
func (vm *VM) dup(n int) {
	if len(vm.Stack) < n {
		panic(errVM)
	}
	for _, x := range append([][]byte(nil), vm.Stack[len(vm.Stack)-n:]...) {
		vm.push(x)
	}
}
func (vm *VM) checksig() {
	pub, sig := vm.pop(), vm.pop()
	vm.push(boolean(len(sig) > 0 && vm.Check(sig, pub)))
}

// Match says whether the signatures match different keys in the same order.
func Match(m, n int, ok func(s, k int) bool) bool {
	// reach[k] : the first s signatures match among the first k keys
	reach := make([]bool, n+1)
	for i := range reach {
		reach[i] = true
	}
	for s := 0; s < m; s++ {
		next := make([]bool, n+1)
		for k := 0; k < n; k++ {
			next[k+1] = next[k] || reach[k] && ok(s, k)
		}
		reach = next
	}
	return reach[n]
}

func (vm *VM) multisig() {
	n := vm.num()
	if n < 0 || n > 20 {
		panic(errVM)
	}
	keys := make([][]byte, n)
	for i := range keys {
		keys[i] = vm.pop()
	}
	m := vm.num()
	if m < 0 || m > n {
		panic(errVM)
	}
	sigs := make([][]byte, m)
	for i := range sigs {
		sigs[i] = vm.pop()
	}
	vm.pop()
	vm.push(boolean(Match(int(m), int(n), func(s, k int) bool { return len(sigs[s]) > 0 && vm.Check(sigs[s], keys[k]) })))
}

// Run executes one script on the present stack.
func (vm *VM) Run(script []byte) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if r != errVM {
				panic(r)
			}
			err = errVM
		}
	}()
	var cond []int // 1 taken, 0 not taken, 2 inside one not taken
	for len(script) > 0 {
		ins, ok, unknown := Parse(script)
		if len(ins) == 0 {
			_ = ok
			return errVM
		}
		_ = unknown
		in := ins[0]
		if !(in.Op <= 0x4e || Known[in.Op]) {
			return errVM
		}
		script = script[len(in.Raw):]
		live := len(cond) == 0 || cond[len(cond)-1] == 1
		op := in.Op
		switch {
		case op == 0x63 || op == 0x64:
			c := 2
			if live {
				b := vm.pop()
				if len(b) > 1 || len(b) == 1 && b[0] != 1 {
					return errVM
				}
				c = 0
				if True(b) == (op == 0x63) {
					c = 1
				}
			}
			cond = append(cond, c)
		case op == 0x67:
			if len(cond) == 0 {
				return errVM
			}
			if c := &cond[len(cond)-1]; *c != 2 {
				*c = 1 - *c
			}
		case op == 0x68:
			if len(cond) == 0 {
				return errVM
			}
			cond = cond[:len(cond)-1]
		case !live:
		case op <= 0x4e:
			vm.push(in.Data)
		case op == 0x4f:
			vm.push([]byte{0x81})
		case op >= 0x51 && op <= 0x60:
			vm.push([]byte{op - 0x50})
		case op == 0x6a:
			if vm.Return {
				return errVM
			}
		case op == 0x76:
			vm.dup(1)
		case op == 0x6e:
			vm.dup(2)
		case op == 0x6f:
			vm.dup(3)
		case op == 0x75:
			vm.pop()
		case op == 0x82:
			b := vm.pop()
			vm.push(b)
			vm.push(Num(int64(len(b))))
		case op == 0x7c:
			a, b := vm.pop(), vm.pop()
			vm.push(a)
			vm.push(b)
		case op == 0x87 || op == 0x88:
			a, b := vm.pop(), vm.pop()
			vm.push(boolean(bytes.Equal(a, b)))
			if op == 0x88 {
				vm.verify()
			}
		case op == 0x93:
			a, b := vm.num(), vm.num()
			vm.push(Num(a + b))
		case op == 0xa9:
			vm.push(Hash160(vm.pop()))
		case op == 0xac || op == 0xad:
			vm.checksig()
			if op == 0xad {
				vm.verify()
			}
		case op == 0xae || op == 0xaf:
			vm.multisig()
			if op == 0xaf {
				vm.verify()
			}
		default:
			panic("oracle: opcode")
		}
		vm.Trace = append(vm.Trace, Show(vm.Stack))
	}
	if len(cond) > 0 {
		return errVM
	}
	return nil
}

// Final is the condition on the stack when the last script is done.
func (vm *VM) Final(emptyOK bool) bool {
	if len(vm.Stack) == 0 {
		return emptyOK
	}
	return True(vm.Stack[len(vm.Stack)-1])
}

// Spend runs an unlocking and a locking script, and the redeem script of a P2SH.
func Spend(unlocking, locking []byte, check func(sig, pub []byte) bool, emptyOK, ret bool) bool {
	vm := &VM{Check: check, Return: ret}
	if vm.Run(unlocking) != nil {
		return false
	}
	start := append([][]byte(nil), vm.Stack...)
	if vm.Run(locking) != nil || !vm.Final(emptyOK) {
		return false
	}
	if len(locking) == 23 && locking[0] == 0xa9 && locking[1] == 20 && locking[22] == 0x87 {
		if len(start) == 0 {
			return false
		}
		redeem := start[len(start)-1]
		vm.Stack = start[:len(start)-1]
		return vm.Run(redeem) == nil && vm.Final(emptyOK)
	}
	return true
}

// Hash160 is RIPEMD-160 of SHA-256.
func Hash160(b []byte) []byte {
	x := sha256.Sum256(b)
	return Ripemd160(x[:])
}
