package main

// Built-in uninterpreted functions of the logic and defined (opaque) spec functions.

import (
	"math/big"
	"sync"
)

type FuncDef struct {
	Name   string
	Params []*Sort
	PNames []string
	Ret    *Sort
	Body   *Term // over Vars named by pvars; nil when uninterpreted
	pvars  []*Term
	Len    func(args []*Term) *Term
	Lo, Hi *big.Int
	Rec    bool
	Fuel   int
	Trans  string // note for evidence
}

var (
	defMu sync.Mutex
	defs  = map[string]*FuncDef{}
)

func defOf(n string) *FuncDef {
	defMu.Lock()
	defer defMu.Unlock()
	return defs[n]
}
func addDef(d *FuncDef) {
	defMu.Lock()
	defer defMu.Unlock()
	defs[d.Name] = d
}

func constLen(n int64) func([]*Term) *Term { return func([]*Term) *Term { return Int(n) } }

func init() {
	u := func(name string, ret *Sort, l func([]*Term) *Term, ps ...*Sort) {
		addDef(&FuncDef{Name: name, Params: ps, Ret: ret, Len: l})
	}
	u("sha256", SeqB, constLen(32), SeqB)
	u("sha512", SeqB, constLen(64), SeqB)
	u("sha1", SeqB, constLen(20), SeqB)
	u("ripemd160", SeqB, constLen(20), SeqB)
	u("hmac256", SeqB, constLen(32), SeqB, SeqB)
	u("hmac512", SeqB, constLen(64), SeqB, SeqB)
	u("hexenc", SeqB, func(a []*Term) *Term { return Scale(Len(a[0]), big.NewInt(2)) }, SeqB)
	u("lower", SeqB, nil, SeqB)
	u("upper", SeqB, nil, SeqB)
	u("bxor", SInt, nil, SInt, SInt)
	u("band", SInt, nil, SInt, SInt)
	u("bor", SInt, nil, SInt, SInt)
	u("pow2", SInt, nil, SInt)
	// big-endian value of a byte string and minimal big-endian bytes of a natural
	u("beval", SInt, nil, SeqB)
	u("bebytes", SeqB, nil, SInt)
	u("modinv", SInt, nil, SInt, SInt)
	u("modexp", SInt, nil, SInt, SInt, SInt)
	u("gcd", SInt, nil, SInt, SInt)
	u("isqrtmod", SInt, nil, SInt, SInt)
	u("bitlen", SInt, nil, SInt)
	defs["beval"].Lo = new(big.Int)
	defs["bitlen"].Lo = new(big.Int)
	defs["bitlen"].Hi = new(big.Int).Lsh(bigOne, 40)
	defs["gcd"].Lo = new(big.Int)
	defs["pow2"].Lo = big.NewInt(1)
	for _, n := range []string{"bxor", "band", "bor"} {
		defs[n].Lo = nil
	}
}

type lemmaRewrite func(args []*Term) *Term

var rewrites = map[string][]lemmaRewrite{}

// knownHash names the hash a constructor's handle stands for.
var knownHash func(h *Term) string

// rewriteApp evaluates or normalises built-in applications.
func rewriteApp(name string, s *Sort, args []*Term) *Term {
	switch name {
	case "isqr", "modsqrt", "modinv", "gcd", "modexp", "jacobi":
		// they depend on the residue only
		if n := args[len(args)-1]; n.isConst() && n.K.BitLen() > 64 {
			if m := Mod(args[0], n); m != args[0] {
				return App(name, s, append([]*Term{m}, args[1:]...)...)
			}
		}
	}
	switch name {
	case "hashsize":
		if knownHash != nil {
			switch knownHash(args[0]) {
			case "sha256":
				return Int(32)
			case "sha512":
				return Int(64)
			}
		}
	case "hmacfn":
		if knownHash != nil {
			switch knownHash(args[0]) {
			case "sha256":
				return App("hmac256", s, args[1], args[2])
			case "sha512":
				return App("hmac512", s, args[1], args[2])
			}
		}
	case "bxor", "band", "bor":
		a, b := args[0], args[1]
		if a.isConst() && b.isConst() && a.K.Sign() >= 0 && b.K.Sign() >= 0 {
			r := new(big.Int)
			switch name {
			case "bxor":
				r.Xor(a.K, b.K)
			case "band":
				r.And(a.K, b.K)
			default:
				r.Or(a.K, b.K)
			}
			return IntB(r)
		}
		if a.ID > b.ID {
			return App(name, s, b, a)
		}
		wa, oka := bitsOf(a)
		wb, okb := bitsOf(b)
		if oka && okb && (wa <= alignOf(b) || wb <= alignOf(a)) {
			if name == "band" {
				return Zero
			}
			return Add(a, b)
		}
		if c, x, w, ok := b, a, wa, oka; a.isConst() || b.isConst() {
			if a.isConst() {
				c, x, w, ok = a, b, wb, okb
			}
			if ok && c.K.Sign() >= 0 && bitRuns(c.K) <= 2 {
				m := new(big.Int).And(c.K, new(big.Int).Sub(new(big.Int).Lsh(bigOne, w), bigOne))
				n := andConst(x, m)
				switch name {
				case "band":
					return n
				case "bor":
					return Sub(Add(x, c), n)
				default:
					return Sub(Add(x, c), Scale(n, big.NewInt(2)))
				}
			}
		}
		if c, x := a, b; name == "band" && (a.isConst() || b.isConst()) {
			if b.isConst() {
				c, x = b, a
			}
			if k := new(big.Int).Add(c.K, bigOne); c.K.Sign() >= 0 && new(big.Int).And(c.K, k).Sign() == 0 {
				return Mod(x, IntB(k))
			}
		}
		switch name {
		case "bxor":
			if a == b {
				return Zero
			}
			if a == Zero {
				return b
			}
			if b == Zero {
				return a
			}
		case "band":
			if a == b {
				return a
			}
			if a == Zero || b == Zero {
				return Zero
			}
		case "bor":
			if a == b || b == Zero {
				return a
			}
			if a == Zero {
				return b
			}
		}
	case "powi":
		if k, ok := args[1].Int64(); ok && k >= 0 && k <= 4 {
			r := One
			for ; k > 0; k-- {
				r = Mul(r, args[0])
			}
			return r
		}
	case "pow2":
		if k, ok := args[0].Int64(); ok && k >= 0 && k <= 4096 {
			return IntB(new(big.Int).Lsh(bigOne, uint(k)))
		}
	case "beval":
		a := args[0]
		if a.Op == OLit {
			r := Zero
			for _, x := range a.Args {
				r = Add(Scale(r, big.NewInt(256)), x)
			}
			return r
		}
		if a.Op == OApp && a.Name == "bebytes" && ge0(a.Args[0]) {
			return a.Args[0]
		}
		if a.Op == OCat && a.Args[0].Op == ORep && a.Args[0].Args[1] == Zero {
			return App("beval", SInt, Cat(a.Args[1:]...))
		}
		if a.Op == OCat && a.Args[0].Op == OLit && a.Args[0].Args[0] == Zero {
			return App("beval", SInt, Cat(append([]*Term{Lit(SeqB, a.Args[0].Args[1:]...)}, a.Args[1:]...)...))
		}
	case "bebytes":
		if args[0].isConst() && args[0].K.Sign() >= 0 {
			return BytesLit(args[0].K.Bytes())
		}
	case "bitlen":
		if args[0].isConst() {
			return Int(int64(args[0].K.BitLen()))
		}
	case "modexp":
		if args[0].isConst() && args[1].isConst() && args[2].isConst() && args[1].K.Sign() >= 0 && args[2].K.Sign() > 0 {
			return IntB(new(big.Int).Exp(args[0].K, args[1].K, args[2].K))
		}
	case "modinv":
		if args[0].isConst() && args[1].isConst() && args[1].K.Sign() > 0 {
			if r := new(big.Int).ModInverse(args[0].K, args[1].K); r != nil {
				return IntB(r)
			}
		}
	case "lower":
		if a := args[0]; a.Op == OApp && (a.Name == "lower" || a.Name == "upper") {
			return App("lower", s, a.Args[0])
		}
	case "upper":
		if a := args[0]; a.Op == OApp && (a.Name == "lower" || a.Name == "upper") {
			return App("upper", s, a.Args[0])
		}
	}
	for _, rw := range rewrites[name] {
		if t := rw(args); t != nil {
			return t
		}
	}
	return nil
}

// bitRuns counts the maximal runs of one bits.
func bitRuns(k *big.Int) int {
	n := 0
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 && (i == 0 || k.Bit(i-1) == 0) {
			n++
		}
	}
	return n
}

func appRange(t *Term) (rng, bool) {
	switch t.Name {
	case "bxor", "bor", "band":
		al, ah := Range(t.Args[0])
		bl, bh := Range(t.Args[1])
		if al != nil && bl != nil && al.Sign() >= 0 && bl.Sign() >= 0 && ah != nil && bh != nil {
			m := ah
			if t.Name == "band" {
				if bh.Cmp(m) < 0 {
					m = bh
				}
				return rng{new(big.Int), m}, true
			}
			if bh.Cmp(m) > 0 {
				m = bh
			}
			hi := new(big.Int).Lsh(bigOne, uint(m.BitLen()))
			return rng{new(big.Int), hi.Sub(hi, bigOne)}, true
		}
		return rng{}, false
	}
	if d := defOf(t.Name); d != nil && (d.Lo != nil || d.Hi != nil) {
		return rng{d.Lo, d.Hi}, true
	}
	return rng{}, false
}

func appLen(s *Term) *Term {
	if s.Name == "lower" || s.Name == "upper" {
		return Len(s.Args[0])
	}
	if d := defOf(s.Name); d != nil && d.Len != nil {
		return d.Len(s.Args)
	}
	return nil
}

func appGet(s, i *Term) *Term { return nil }
