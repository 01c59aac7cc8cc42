package main

// Models of functions outside the module: the trusted boundary. Each one used is listed in the evidence.

import (
	"encoding/hex"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrFn func(ex *Exec, st *State, args []Val) []Val
type intrKFn func(ex *Exec, fr *Frame, st *State, args []Val, cc *ssa.CallCommon, k kont)

var intrinsics = map[string]intrFn{}
var intrinsicsK = map[string]intrKFn{}

func newErr() *IfaceV { return &IfaceV{H: VarR(freshName("err"), bigOne, nil)} }
func nilErr() *IfaceV { return &IfaceV{H: Zero} }

func (ex *Exec) anErr() *IfaceV {
	if ex.initMode {
		ex.nextID++
		return &IfaceV{H: Int(int64(800000 + ex.nextID))}
	}
	return newErr()
}

func pv(ex *Exec, v Val) *PtrV {
	p, ok := v.(*PtrV)
	if !ok || p.Ref == nil {
		ex.unsup("pointer %T of an external function", v)
	}
	return p
}

func (ex *Exec) bigv(st *State, v Val) *Term {
	p := pv(ex, v)
	ex.nonNil(st, p)
	return ex.sel(st, "big.$v", nil, SInt, p.Ref)
}
func (ex *Exec) setBig(st *State, v Val, t *Term) Val {
	p := pv(ex, v)
	ex.nonNil(st, p)
	ex.frameCheck(st, p.Ref, "big.$v")
	ex.rawStore(st, p.Ref, "big.$v", SInt, nil, t)
	return p
}
func (ex *Exec) newBig(st *State, t *Term) *PtrV {
	r := ex.allocRef(st)
	ex.rawStore(st, r, "big.$v", SInt, nil, t)
	return &PtrV{Ref: r, Key: "big", T: ex.eng.bigType()}
}

func (e *Engine) bigType() types.Type { return e.extType("math/big", "Int") }
func (e *Engine) extType(pkg, name string) types.Type {
	for _, p := range e.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	panic(unsupported{"package " + pkg + " not loaded"})
}

var byteT = types.Typ[types.Byte]

func (ex *Exec) bytesVal(st *State, c *Term) *SliceV { return ex.newSlice(st, c, byteT, false) }
func (ex *Exec) sliceArg(st *State, v Val) *Term {
	switch x := v.(type) {
	case *SliceV:
		return ex.content(st, x)
	case *Term:
		return x
	}
	ex.unsup("byte slice argument %T", v)
	return nil
}

// split continues on both outcomes of c.
func (ex *Exec) split(fr *Frame, st *State, c *Term, yes, no func(st *State)) {
	if c == True {
		yes(st)
		return
	}
	if c == False {
		no(st)
		return
	}
	if ex.feasible(st, c) {
		s2 := st.clone()
		ex.assume(s2, c)
		yes(s2)
	}
	if ex.feasible(st, Not(c)) {
		ex.assume(st, Not(c))
		no(st)
	}
}

// setBytes overwrites the content of the slice s.
func (ex *Exec) fill(st *State, s *SliceV, c *Term) {
	ex.mutate(st, s, func(old, off *Term) *Term {
		d := ex.decider(st)
		return CatS(old.Sort, SubSeq(old, Zero, off, d), c, SubSeq(old, Add(off, s.Len), Len(old), d))
	})
}

func init() {
	// ---- math/big
	M := "math/big.(*Int)."
	bin := func(n string, f func(a, b *Term) *Term) {
		intrinsics[M+n] = func(ex *Exec, st *State, a []Val) []Val {
			return []Val{ex.setBig(st, a[0], f(ex.bigv(st, a[1]), ex.bigv(st, a[2])))}
		}
	}
	bin("Add", func(a, b *Term) *Term { return Add(a, b) })
	bin("Sub", func(a, b *Term) *Term { return Sub(a, b) })
	bin("Mul", func(a, b *Term) *Term { return Mul(a, b) })
	nz := func(ex *Exec, st *State, d *Term) {
		ex.oblige(st, "panic", "division by zero", Ne(d, Zero))
	}
	intrinsics[M+"Mod"] = func(ex *Exec, st *State, a []Val) []Val {
		x, y := ex.bigv(st, a[1]), ex.bigv(st, a[2])
		nz(ex, st, y)
		return []Val{ex.setBig(st, a[0], Mod(x, y))}
	}
	intrinsics[M+"Div"] = func(ex *Exec, st *State, a []Val) []Val {
		x, y := ex.bigv(st, a[1]), ex.bigv(st, a[2])
		nz(ex, st, y)
		return []Val{ex.setBig(st, a[0], Div(x, y))}
	}
	intrinsics[M+"DivMod"] = func(ex *Exec, st *State, a []Val) []Val {
		x, y := ex.bigv(st, a[1]), ex.bigv(st, a[2])
		nz(ex, st, y)
		ex.setBig(st, a[0], Div(x, y))
		ex.setBig(st, a[3], Mod(x, y))
		return []Val{a[0], a[3]}
	}
	intrinsics[M+"Exp"] = func(ex *Exec, st *State, a []Val) []Val {
		x, y := ex.bigv(st, a[1]), ex.bigv(st, a[2])
		mp := pv(ex, a[3])
		if mp.Ref == Zero {
			if x.isConst() && x.K.Cmp(big.NewInt(2)) == 0 {
				return []Val{ex.setBig(st, a[0], App("pow2", SInt, y))}
			}
			return []Val{ex.setBig(st, a[0], App("powi", SInt, x, y))}
		}
		m := ex.bigv(st, a[3])
		r := App("modexp", SInt, x, y, m)
		ex.assume(st, Implies(Gt(m, Zero), And(Ge0(r), Lt(r, m))))
		return []Val{ex.setBig(st, a[0], r)}
	}
	intrinsicsK[M+"ModInverse"] = func(ex *Exec, fr *Frame, st *State, a []Val, cc *ssa.CallCommon, k kont) {
		g, n := ex.bigv(st, a[1]), ex.bigv(st, a[2])
		if n.isConst() && n.K.Sign() > 0 {
			g = Mod(g, n)
		}
		c := Eq(App("gcd", SInt, g, n), One)
		ex.split(fr, st, c, func(st *State) {
			r := App("modinv", SInt, g, n)
			ex.assume(st, Implies(Gt(n, Zero), And(Ge0(r), Lt(r, n))))
			k(st, []Val{ex.setBig(st, a[0], r)})
		}, func(st *State) {
			k(st, []Val{ex.zero(types.NewPointer(ex.eng.bigType()))})
		})
	}
	intrinsics[M+"GCD"] = func(ex *Exec, st *State, a []Val) []Val {
		for _, v := range a[1:3] {
			if q, ok := v.(*PtrV); !ok || q.Ref != Zero {
				ex.unsup("GCD with cofactors")
			}
		}
		return []Val{ex.setBig(st, a[0], App("gcd", SInt, ex.bigv(st, a[3]), ex.bigv(st, a[4])))}
	}
	intrinsicsK[M+"ModSqrt"] = func(ex *Exec, fr *Frame, st *State, a []Val, cc *ssa.CallCommon, k kont) {
		g, n := ex.bigv(st, a[1]), ex.bigv(st, a[2])
		if n.isConst() && n.K.Sign() > 0 {
			g = Mod(g, n)
		}
		r := App("modsqrt", SInt, g, n)
		c := App("isqr", SBool, g, n)
		ex.split(fr, st, c, func(st *State) {
			ex.assume(st, And(Ge0(r), Lt(r, n), Eq(Mod(Mul(r, r), n), Mod(g, n))))
			k(st, []Val{ex.setBig(st, a[0], r)})
		}, func(st *State) {
			k(st, []Val{ex.zero(types.NewPointer(ex.eng.bigType()))})
		})
	}
	intrinsics[M+"Cmp"] = func(ex *Exec, st *State, a []Val) []Val {
		x, y := ex.bigv(st, a[0]), ex.bigv(st, a[1])
		return []Val{Ite(Lt(x, y), Int(-1), Ite(Eq(x, y), Zero, One))}
	}
	intrinsics[M+"Sign"] = func(ex *Exec, st *State, a []Val) []Val {
		x := ex.bigv(st, a[0])
		return []Val{Ite(Lt(x, Zero), Int(-1), Ite(Eq(x, Zero), Zero, One))}
	}
	intrinsics[M+"Set"] = func(ex *Exec, st *State, a []Val) []Val {
		return []Val{ex.setBig(st, a[0], ex.bigv(st, a[1]))}
	}
	intrinsics[M+"SetInt64"] = func(ex *Exec, st *State, a []Val) []Val {
		return []Val{ex.setBig(st, a[0], a[1].(*Term))}
	}
	intrinsics[M+"SetUint64"] = intrinsics[M+"SetInt64"]
	intrinsics["math/big.NewInt"] = func(ex *Exec, st *State, a []Val) []Val {
		return []Val{ex.newBig(st, a[0].(*Term))}
	}
	intrinsics[M+"SetBytes"] = func(ex *Exec, st *State, a []Val) []Val {
		return []Val{ex.setBig(st, a[0], App("beval", SInt, ex.sliceArg(st, a[1])))}
	}
	intrinsics[M+"Bytes"] = func(ex *Exec, st *State, a []Val) []Val {
		return []Val{ex.bytesVal(st, App("bebytes", SeqB, absT(ex.bigv(st, a[0]))))}
	}
	intrinsics[M+"BitLen"] = func(ex *Exec, st *State, a []Val) []Val {
		return []Val{App("bitlen", SInt, absT(ex.bigv(st, a[0])))}
	}
	intrinsics[M+"Bit"] = func(ex *Exec, st *State, a []Val) []Val {
		i := a[1].(*Term)
		ex.oblige(st, "panic", "negative bit index", Ge0(i))
		return []Val{Mod(Div(ex.bigv(st, a[0]), App("pow2", SInt, i)), Int(2))}
	}
	intrinsics[M+"Int64"] = func(ex *Exec, st *State, a []Val) []Val {
		h := pow2(63)
		return []Val{Sub(Mod(Add(ex.bigv(st, a[0]), h), pow2(64)), h)}
	}
	intrinsics[M+"Lsh"] = func(ex *Exec, st *State, a []Val) []Val {
		return []Val{ex.setBig(st, a[0], Mul(ex.bigv(st, a[1]), App("pow2", SInt, a[2].(*Term))))}
	}
	intrinsics[M+"Rsh"] = func(ex *Exec, st *State, a []Val) []Val {
		return []Val{ex.setBig(st, a[0], Div(ex.bigv(st, a[1]), App("pow2", SInt, a[2].(*Term))))}
	}
	intrinsics[M+"And"] = func(ex *Exec, st *State, a []Val) []Val {
		x, y := ex.bigv(st, a[1]), ex.bigv(st, a[2])
		for i := 0; i < 2; i++ {
			if y.isConst() && y.K.Sign() > 0 {
				if n := new(big.Int).Add(y.K, bigOne); n.TrailingZeroBits() == uint(y.K.BitLen()) {
					return []Val{ex.setBig(st, a[0], Mod(x, IntB(n)))}
				}
			}
			x, y = y, x
		}
		return []Val{ex.setBig(st, a[0], App("band", SInt, x, y))}
	}
	intrinsics[M+"Or"] = func(ex *Exec, st *State, a []Val) []Val {
		x, y := ex.bigv(st, a[1]), ex.bigv(st, a[2])
		return []Val{ex.setBig(st, a[0], ex.bigOr(st, x, y))}
	}
	intrinsicsK[M+"SetString"] = func(ex *Exec, fr *Frame, st *State, a []Val, cc *ssa.CallCommon, k kont) {
		s, ok := constBytes(a[1].(*Term))
		b, isC := a[2].(*Term).Int64()
		if ok && isC {
			v, good := new(big.Int).SetString(string(s), int(b))
			if good {
				k(st, []Val{ex.setBig(st, a[0], IntB(v)), True})
			} else {
				k(st, []Val{ex.zero(types.NewPointer(ex.eng.bigType())), False})
			}
			return
		}
		ex.unsup("SetString of an unknown string")
	}
	intrinsics["math/big.Jacobi"] = func(ex *Exec, st *State, a []Val) []Val {
		x, y := ex.bigv(st, a[0]), ex.bigv(st, a[1])
		ex.oblige(st, "panic", "Jacobi of an even modulus", Eq(Mod(y, Int(2)), One))
		r := App("jacobi", SInt, x, y)
		ex.assume(st, And(Le(r, One), Ge(r, Int(-1))))
		return []Val{r}
	}

	// ---- bytes, strings
	intrinsics["bytes.Equal"] = func(ex *Exec, st *State, a []Val) []Val {
		return []Val{Eq(ex.sliceArg(st, a[0]), ex.sliceArg(st, a[1]))}
	}
	intrinsics["bytes.Repeat"] = func(ex *Exec, st *State, a []Val) []Val {
		s, n := ex.sliceArg(st, a[0]), a[1].(*Term)
		ex.oblige(st, "panic", "negative repeat count", Ge0(n))
		if l, ok := Len(s).Int64(); ok && l == 1 {
			return []Val{ex.bytesVal(st, Rep(n, Get(s, Zero, nil), SeqB))}
		}
		return []Val{ex.bytesVal(st, App("repeat", SeqB, s, n))}
	}
	intrinsics["bytes.TrimRight"] = func(ex *Exec, st *State, a []Val) []Val {
		s, ok := a[0].(*SliceV)
		cut, okc := constBytes(a[1].(*Term))
		if !ok || !okc || len(cut) != 1 {
			ex.unsup("bytes.TrimRight")
		}
		c := ex.content(st, s)
		n := App("trimlen", SInt, c, Int(int64(cut[0])))
		ex.assume(st, And(Ge0(n), Le(n, Len(c))))
		i := Fresh("ti", SInt)
		ex.assume(st, Forall(n, Len(c), abstract(Eq(Get(c, i, nil), Int(int64(cut[0]))), i)))
		ex.assume(st, Or(Eq(n, Zero), Ne(Get(c, AddK(n, -1), nil), Int(int64(cut[0])))))
		return []Val{ex.reslice(st, s, Zero, n, nil)}
	}
	intrinsics["strings.IndexByte"] = func(ex *Exec, st *State, a []Val) []Val {
		return []Val{ex.indexByte(st, a[0].(*Term), a[1].(*Term), false)}
	}
	intrinsics["strings.LastIndexByte"] = func(ex *Exec, st *State, a []Val) []Val {
		return []Val{ex.indexByte(st, a[0].(*Term), a[1].(*Term), true)}
	}
	for _, n := range []string{"ToLower", "ToUpper"} {
		f := strings.ToLower(n[2:])
		intrinsics["strings."+n] = func(ex *Exec, st *State, a []Val) []Val {
			s := a[0].(*Term)
			i := Fresh("ci", SInt)
			ex.oblige(st, "model", "letter case of text outside ASCII", Forall(Zero, Len(s), abstract(Lt(Get(s, i, nil), Int(128)), i)))
			return []Val{App(f, SeqB, s)}
		}
	}
	intrinsics["strings.HasPrefix"] = func(ex *Exec, st *State, a []Val) []Val {
		s, p := a[0].(*Term), a[1].(*Term)
		if isEmpty(p) {
			return []Val{True}
		}
		return []Val{And(Ge(Len(s), Len(p)), Eq(SubSeq(s, Zero, Len(p), ex.decider(st)), p))}
	}
	intrinsics["strings.HasSuffix"] = func(ex *Exec, st *State, a []Val) []Val {
		s, p := a[0].(*Term), a[1].(*Term)
		if isEmpty(p) {
			return []Val{True}
		}
		if n, ok := Len(p).Int64(); ok && n == 1 {
			return []Val{And(Ge(Len(s), One), Eq(Get(s, AddK(Len(s), -1), nil), Get(p, Zero, nil)))}
		}
		return []Val{And(Ge(Len(s), Len(p)), Eq(SubSeq(s, Sub(Len(s), Len(p)), Len(s), ex.decider(st)), p))}
	}
	intrinsics["strings.Join"] = func(ex *Exec, st *State, a []Val) []Val {
		return []Val{App("strjoin", SeqB, ex.sliceArg(st, a[0]), a[1].(*Term))}
	}
	intrinsics["strings.Split"] = func(ex *Exec, st *State, a []Val) []Val {
		s, sep := a[0].(*Term), a[1].(*Term)
		c := App("strsplit", SeqS, s, sep)
		ex.assume(st, Ge(Len(c), Ite(Eq(Len(sep), Zero), Zero, One)))
		return []Val{ex.newSlice(st, c, types.Typ[types.String], false)}
	}
	intrinsics["strings.Fields"] = func(ex *Exec, st *State, a []Val) []Val {
		c := App("strfields", SeqS, a[0].(*Term))
		return []Val{ex.newSlice(st, c, types.Typ[types.String], false)}
	}
	intrinsics["strings.Replace"] = func(ex *Exec, st *State, a []Val) []Val {
		return []Val{App("strreplace", SeqB, a[0].(*Term), a[1].(*Term), a[2].(*Term), a[3].(*Term))}
	}

	// ---- bytes.Buffer: content in field buf
	B := "bytes.(*Buffer)."
	bbuf := func(ex *Exec, st *State, p *PtrV) *Term {
		ex.nonNil(st, p)
		return ex.sel(st, "bytes.Buffer.buf", types.NewSlice(byteT), SeqB, p.Ref)
	}
	bset := func(ex *Exec, st *State, p *PtrV, t *Term) {
		ex.frameCheck(st, p.Ref, "bytes.Buffer.buf")
		ex.rawStore(st, p.Ref, "bytes.Buffer.buf", SeqB, types.NewSlice(byteT), t)
	}
	intrinsics[B+"Write"] = func(ex *Exec, st *State, a []Val) []Val {
		p := pv(ex, a[0])
		d := ex.sliceArg(st, a[1])
		bset(ex, st, p, Cat(bbuf(ex, st, p), d))
		return []Val{Len(d), nilErr()}
	}
	intrinsics[B+"WriteString"] = intrinsics[B+"Write"]
	intrinsics[B+"WriteByte"] = func(ex *Exec, st *State, a []Val) []Val {
		p := pv(ex, a[0])
		bset(ex, st, p, Cat(bbuf(ex, st, p), Lit(SeqB, a[1].(*Term))))
		return []Val{nilErr()}
	}
	intrinsics[B+"Bytes"] = func(ex *Exec, st *State, a []Val) []Val {
		return []Val{ex.bytesVal(st, bbuf(ex, st, pv(ex, a[0])))}
	}
	intrinsics[B+"String"] = func(ex *Exec, st *State, a []Val) []Val {
		return []Val{bbuf(ex, st, pv(ex, a[0]))}
	}
	intrinsics["encoding/binary.Write"] = func(ex *Exec, st *State, a []Val) []Val {
		w, ok := a[0].(*IfaceV)
		d, ok2 := a[2].(*IfaceV)
		if !ok || !ok2 || w.Dyn == nil || d.Dyn == nil || typeKey(w.Dyn) != "*bytes.Buffer" {
			ex.unsup("binary.Write")
		}
		bits, _, isInt := intInfo(d.Dyn)
		o, okO := a[1].(*IfaceV)
		if !isInt || !okO || o.Dyn == nil {
			ex.unsup("binary.Write of %s", d.Dyn)
		}
		n := bits / 8
		v := d.V.(*Term)
		if b := pow2(uint(bits)); !ge0(v) {
			v = Mod(v, b)
		}
		var enc *Term
		if strings.Contains(typeKey(o.Dyn), "ittle") {
			enc = leBytes(v, n)
		} else {
			enc = beBytes(v, n)
		}
		p := pv(ex, w.V)
		bset(ex, st, p, Cat(bbuf(ex, st, p), enc))
		return []Val{nilErr()}
	}

	// ---- io: a reader delivers its stream until it ends
	intrinsicsK["io.ReadFull"] = func(ex *Exec, fr *Frame, st *State, a []Val, cc *ssa.CallCommon, k kont) {
		buf := a[1].(*SliceV)
		ex.readStream(fr, st, a[0], buf.Len, func(st *State, d *Term) {
			ex.fill(st, buf, d)
			k(st, []Val{buf.Len, nilErr()})
		}, func(st *State) {
			d := Fresh("partial", SeqB)
			ex.assume(st, Eq(Len(d), buf.Len))
			ex.fill(st, buf, d)
			n := VarR(freshName("n"), new(big.Int), nil)
			ex.assume(st, Lt(n, buf.Len))
			k(st, []Val{n, newErr()})
		})
	}
	intrinsicsK["encoding/binary.Read"] = func(ex *Exec, fr *Frame, st *State, a []Val, cc *ssa.CallCommon, k kont) {
		d, ok := a[2].(*IfaceV)
		o, okO := a[1].(*IfaceV)
		if !ok || !okO || d.Dyn == nil || o.Dyn == nil {
			ex.unsup("binary.Read")
		}
		pt, isP := under(d.Dyn).(*types.Pointer)
		if !isP {
			ex.unsup("binary.Read into %s", d.Dyn)
		}
		bits, signed, isInt := intInfo(pt.Elem())
		if !isInt {
			ex.unsup("binary.Read into %s", d.Dyn)
		}
		n := bits / 8
		ex.readStream(fr, st, a[0], Int(int64(n)), func(st *State, s *Term) {
			var v *Term
			if strings.Contains(typeKey(o.Dyn), "ittle") {
				v = leVal(s, Zero, n, ex.decider(st))
			} else {
				v = beVal(s, Zero, n, ex.decider(st))
			}
			if signed {
				v = ex.wrap(st, v, pt.Elem())
			}
			ex.store(st, d.V.(*PtrV), v)
			k(st, []Val{nilErr()})
		}, func(st *State) { k(st, []Val{newErr()}) })
	}

	// ---- encoding
	intrinsics["encoding/hex.EncodeToString"] = func(ex *Exec, st *State, a []Val) []Val {
		return []Val{App("hexenc", SeqB, ex.sliceArg(st, a[0]))}
	}
	intrinsicsK["encoding/hex.DecodeString"] = func(ex *Exec, fr *Frame, st *State, a []Val, cc *ssa.CallCommon, k kont) {
		s := a[0].(*Term)
		if b, ok := constBytes(s); ok {
			if d, err := hex.DecodeString(string(b)); err == nil {
				k(st, []Val{ex.bytesVal(st, BytesLit(d)), nilErr()})
				return
			}
		}
		ex.split(fr, st, App("ishex", SBool, s), func(st *State) {
			d := App("hexdec", SeqB, s)
			ex.assume(st, Eq(Len(s), Scale(Len(d), big.NewInt(2))))
			k(st, []Val{ex.bytesVal(st, d), nilErr()})
		}, func(st *State) {
			k(st, []Val{ex.bytesVal(st, Fresh("hexpart", SeqB)), newErr()})
		})
	}
	put := func(n int) intrFn {
		return func(ex *Exec, st *State, a []Val) []Val {
			b := a[1].(*SliceV)
			ex.oblige(st, "panic", "index out of range", Ge(b.Len, Int(int64(n))))
			d := ex.decider(st)
			ex.mutate(st, b, func(c, off *Term) *Term {
				return CatS(c.Sort, SubSeq(c, Zero, off, d), beBytes(a[2].(*Term), n), SubSeq(c, AddK(off, int64(n)), Len(c), d))
			})
			return nil
		}
	}
	intrinsics["encoding/binary.bigEndian.PutUint16"] = put(2)
	intrinsics["encoding/binary.bigEndian.PutUint32"] = put(4)
	intrinsics["encoding/binary.bigEndian.Uint16"] = func(ex *Exec, st *State, a []Val) []Val {
		c := ex.sliceArg(st, a[1])
		ex.oblige(st, "panic", "index out of range", Ge(Len(c), Int(2)))
		return []Val{beVal(c, Zero, 2, ex.decider(st))}
	}
	intrinsics["math/bits.RotateLeft32"] = func(ex *Exec, st *State, a []Val) []Val {
		x, n := a[0].(*Term), a[1].(*Term)
		if k, ok := n.Int64(); ok {
			k &= 31
			if k == 0 {
				return []Val{x}
			}
			lo := Mod(Scale(x, new(big.Int).Lsh(bigOne, uint(k))), pow2(32))
			return []Val{Add(lo, Div(x, pow2(uint(32-k))))}
		}
		r := App("rotl32", SInt, x, n)
		ex.assume(st, And(Ge0(r), Lt(r, pow2(32))))
		return []Val{r}
	}
	intrinsicsK["strconv.ParseUint"] = func(ex *Exec, fr *Frame, st *State, a []Val, cc *ssa.CallCommon, k kont) {
		bits, _ := a[2].(*Term).Int64()
		s := a[0].(*Term)
		if bits == 0 {
			bits = 64
		}
		v := App("parseuint", SInt, s, a[1].(*Term))
		ex.split(fr, st, And(App("isuint", SBool, s, a[1].(*Term)), Lt(v, pow2(uint(bits)))), func(st *State) {
			ex.assume(st, And(Ge0(v), Ge(Len(s), One)))
			k(st, []Val{v, nilErr()})
		}, func(st *State) {
			u := VarR(freshName("badnum"), new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(bits)), bigOne))
			k(st, []Val{u, newErr()})
		})
	}

	// ---- errors and formatting
	intrinsics["errors.New"] = func(ex *Exec, st *State, a []Val) []Val { return []Val{ex.anErr()} }
	intrinsics["fmt.Errorf"] = intrinsics["errors.New"]

	// ---- hashes
	sum := func(name string) intrFn {
		return func(ex *Exec, st *State, a []Val) []Val { return []Val{App(name, SeqB, ex.sliceArg(st, a[0]))} }
	}
	intrinsics["crypto/sha256.Sum256"] = sum("sha256")
	intrinsics["crypto/sha512.Sum512"] = sum("sha512")
	intrinsics["crypto/sha1.Sum"] = sum("sha1")
	nh := func(alg string) intrFn {
		return func(ex *Exec, st *State, a []Val) []Val {
			return []Val{ex.newHash(st, &HashV{Alg: alg})}
		}
	}
	intrinsics["crypto/sha256.New"] = nh("sha256")
	intrinsics["crypto/sha512.New"] = nh("sha512")
	intrinsics["crypto/sha1.New"] = nh("sha1")
	intrinsics["crypto/hmac.New"] = func(ex *Exec, st *State, a []Val) []Val {
		f, ok := a[0].(*FuncV)
		if !ok {
			ex.unsup("hmac of %T", a[0])
		}
		return []Val{ex.newHash(st, &HashV{Alg: "hmac", H: ex.funcHandle(f), Key: ex.sliceArg(st, a[1])})}
	}

	// ---- randomness: the operating system's source is a stream indexed by a call counter
	intrinsicsK["crypto/rand.Read"] = func(ex *Exec, fr *Frame, st *State, a []Val, cc *ssa.CallCommon, k kont) {
		b := a[0].(*SliceV)
		c := ex.osCtr(st)
		ex.split(fr, st, App("osok", SBool, c), func(st *State) {
			d := App("osrand", SeqB, c, b.Len)
			ex.assume(st, Eq(Len(d), b.Len))
			ex.fill(st, b, d)
			k(st, []Val{b.Len, nilErr()})
		}, func(st *State) {
			d := Fresh("partial", SeqB)
			ex.assume(st, Eq(Len(d), b.Len))
			ex.fill(st, b, d)
			k(st, []Val{Zero, newErr()})
		})
	}
	isOS := func(ex *Exec, v Val) bool {
		iv, ok := v.(*IfaceV)
		if !ok {
			return false
		}
		if iv.V == nil && iv.H != nil {
			if d, ok := ex.eng.regIface(iv.H); ok {
				iv = d
			}
		}
		e, ok := iv.V.(*ExternV)
		return ok && e.Name == "crypto/rand.Reader"
	}
	intrinsicsK["crypto/rand.Int"] = func(ex *Exec, fr *Frame, st *State, a []Val, cc *ssa.CallCommon, k kont) {
		m := ex.bigv(st, a[1])
		ex.oblige(st, "panic", "rand.Int with a non-positive bound", Gt(m, Zero))
		c := ex.osCtr(st)
		src := "osrandint"
		if !isOS(ex, a[0]) {
			src = freshName("otherrand")
		}
		ex.split(fr, st, App("osok", SBool, c), func(st *State) {
			r := App(src, SInt, c, m)
			ex.assume(st, And(Ge0(r), Lt(r, m)))
			k(st, []Val{ex.newBig(st, r), nilErr()})
		}, func(st *State) {
			k(st, []Val{ex.zero(types.NewPointer(ex.eng.bigType())), newErr()})
		})
	}
	intrinsicsK["crypto/rand.Prime"] = func(ex *Exec, fr *Frame, st *State, a []Val, cc *ssa.CallCommon, k kont) {
		n := a[1].(*Term)
		c := ex.osCtr(st)
		src := "osprime"
		if !isOS(ex, a[0]) {
			src = freshName("otherrand")
		}
		ex.split(fr, st, And(App("osok", SBool, c), Ge(n, Int(2))), func(st *State) {
			r := App(src, SInt, c, n)
			ex.assume(st, Gt(r, One))
			ex.assume(st, App("isprime", SBool, r))
			ex.assume(st, Eq(App("bitlen", SInt, r), n))
			k(st, []Val{ex.newBig(st, r), nilErr()})
		}, func(st *State) {
			k(st, []Val{ex.zero(types.NewPointer(ex.eng.bigType())), newErr()})
		})
	}
	noop := func(ex *Exec, st *State, a []Val) []Val { return nil }
	intrinsics["sync.(*Mutex).Lock"] = noop
	intrinsics["sync.(*Mutex).Unlock"] = noop
}

func (ex *Exec) osCtr(st *State) *Term {
	c := ex.sel(st, "rand.$n", types.Typ[types.Int], SInt, Zero)
	ex.rawStore(st, Zero, "rand.$n", SInt, types.Typ[types.Int], AddK(c, 1))
	return c
}

// bigOr adds when the operands cannot share bits.
func (ex *Exec) bigOr(st *State, x, y *Term) *Term {
	for i := 0; i < 2; i++ {
		a := alignOf(x)
		if a > 0 {
			if _, h := Range(y); h != nil && ge0(y) && uint(h.BitLen()) <= a {
				return Add(x, y)
			}
			if d := ex.decider(st); d != nil && d(Ge0(y)) && d(Lt(y, pow2(a))) {
				return Add(x, y)
			}
		}
		x, y = y, x
	}
	return App("bor", SInt, x, y)
}

func (ex *Exec) indexByte(st *State, s, c *Term, last bool) *Term {
	name := "indexbyte"
	if last {
		name = "lastindexbyte"
	}
	if b, ok := constBytes(s); ok {
		if k, ok := c.Int64(); ok {
			if last {
				return Int(int64(strings.LastIndexByte(string(b), byte(k))))
			}
			return Int(int64(strings.IndexByte(string(b), byte(k))))
		}
	}
	r := App(name, SInt, s, c)
	if !ex.initMode {
		i := Fresh("ii", SInt)
		ne := abstract(Ne(Get(s, i, nil), c), i)
		ex.assume(st, And(Ge(r, Int(-1)), Lt(r, Len(s))))
		ex.assume(st, Implies(Ge0(r), Eq(Get(s, r, ex.decider(st)), c)))
		lo, hi := Zero, Ite(Ge0(r), r, Len(s))
		if last {
			lo, hi = AddK(r, 1), Len(s)
		}
		ex.assume(st, Forall(lo, hi, ne))
	}
	return r
}

// readStream takes n bytes from the reader's stream.
func (ex *Exec) readStream(fr *Frame, st *State, r Val, n *Term, yes func(st *State, d *Term), no func(st *State)) {
	iv, ok := r.(*IfaceV)
	if !ok {
		ex.unsup("reader %T", r)
	}
	h := ex.ifaceHandle(st, iv)
	ex.oblige(st, "panic", "read from a nil reader", Ne(h, Zero))
	s := ex.sel(st, "io.$stream", nil, SeqB, h)
	ex.split(fr, st, Ge(Len(s), n), func(st *State) {
		d := ex.decider(st)
		ex.frameCheck(st, h, "io.$stream")
		ex.rawStore(st, h, "io.$stream", SeqB, nil, SubSeq(s, n, Len(s), d))
		yes(st, SubSeq(s, Zero, n, d))
	}, func(st *State) {
		ex.frameCheck(st, h, "io.$stream")
		ex.rawStore(st, h, "io.$stream", SeqB, nil, Empty(SeqB))
		no(st)
	})
}

// ---- hash states

func (ex *Exec) newHash(st *State, h *HashV) *IfaceV {
	h.Ref = ex.allocRef(st)
	ex.rawStore(st, h.Ref, "hash.$data", SeqB, nil, Empty(SeqB))
	iv := &IfaceV{V: h, H: VarR(freshName("hash"), bigOne, nil)}
	ex.eng.regMu.Lock()
	ex.eng.ifaceReg[iv.H] = iv
	ex.eng.regMu.Unlock()
	return iv
}

// algOf resolves a known hash constructor.
func (ex *Exec) algOf(h *Term) string { return ex.eng.algOf(h) }

func (e *Engine) algOf(h *Term) string {
	if k, ok := h.Int64(); ok {
		if f := e.funcByID(k); f != nil {
			switch funcKey(f) {
			case "crypto/sha256.New":
				return "sha256"
			case "crypto/sha512.New":
				return "sha512"
			}
		}
	}
	return ""
}

func (ex *Exec) hashApply(h *HashV, d *Term) *Term {
	switch h.Alg {
	case "hmac":
		switch ex.algOf(h.H) {
		case "sha256":
			return App("hmac256", SeqB, h.Key, d)
		case "sha512":
			return App("hmac512", SeqB, h.Key, d)
		}
		return App("hmacfn", SeqB, h.H, h.Key, d)
	case "fn":
		return App("hashfn", SeqB, h.H, d)
	}
	return App(h.Alg, SeqB, d)
}

func (ex *Exec) hashSize(h *HashV) *Term {
	switch h.Alg {
	case "sha256":
		return Int(32)
	case "sha512":
		return Int(64)
	case "sha1":
		return Int(20)
	}
	switch ex.algOf(h.H) {
	case "sha256":
		return Int(32)
	case "sha512":
		return Int(64)
	}
	return App("hashsize", SInt, h.H)
}

func (ex *Exec) hashMethod(st *State, h *HashV, name string, a []Val) []Val {
	data := ex.sel(st, "hash.$data", nil, SeqB, h.Ref)
	switch name {
	case "Write":
		d := ex.sliceArg(st, a[0])
		ex.frameCheck(st, h.Ref, "hash.$data")
		ex.rawStore(st, h.Ref, "hash.$data", SeqB, nil, Cat(data, d))
		return []Val{Len(d), nilErr()}
	case "Sum":
		r := ex.hashApply(h, data)
		s, ok := a[0].(*SliceV)
		if !ok {
			ex.unsup("Sum into %T", a[0])
		}
		if s.Nil == True || s.Len == Zero && s.Cap == Zero {
			return []Val{ex.bytesVal(st, r)}
		}
		return []Val{ex.appendTo(st, s, r)}
	case "Reset":
		ex.frameCheck(st, h.Ref, "hash.$data")
		ex.rawStore(st, h.Ref, "hash.$data", SeqB, nil, Empty(SeqB))
		return nil
	case "Size":
		return []Val{ex.hashSize(h)}
	case "BlockSize":
		return []Val{Int(64)}
	}
	ex.unsup("hash method %s", name)
	return nil
}

// pureExternal: external functions with no effect the properties observe; results are unconstrained.
func pureExternal(key string) bool {
	for _, p := range []string{"fmt.Sprintf", "fmt.Printf", "fmt.Println", "fmt.Fprintln", "fmt.Fprintf", "time.", "runtime.", "net.", "strconv.", "strings.", "math.", "text/tabwriter.", "encoding/json.", "net/http.", "context.", "os.", "io/ioutil.", "bufio.", "math/rand.New", "math/rand.NewSource", "crypto/elliptic.P256"} {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	return false
}

func init() {
	u := func(name string, ret *Sort, l func([]*Term) *Term, ps ...*Sort) {
		if defOf(name) == nil {
			addDef(&FuncDef{Name: name, Params: ps, Ret: ret, Len: l})
		}
	}
	u("mapint", SInt, nil, SInt, SeqB)
	u("maphas", SBool, nil, SInt, SeqB)
	u("powi", SInt, nil, SInt, SInt)
	u("modsqrt", SInt, nil, SInt, SInt)
	u("isqr", SBool, nil, SInt, SInt)
	u("jacobi", SInt, nil, SInt, SInt)
	u("repeat", SeqB, nil, SeqB, SInt)
	u("trimlen", SInt, nil, SeqB, SInt)
	u("indexbyte", SInt, nil, SeqB, SInt)
	u("lastindexbyte", SInt, nil, SeqB, SInt)
	u("strjoin", SeqB, nil, SeqS, SeqB)
	u("strsplit", SeqS, nil, SeqB, SeqB)
	u("strfields", SeqS, nil, SeqB)
	u("ishex", SBool, nil, SeqB)
	u("hexdec", SeqB, nil, SeqB)
	u("rotl32", SInt, nil, SInt, SInt)
	u("parseuint", SInt, nil, SeqB, SInt)
	u("isuint", SBool, nil, SeqB, SInt)
	u("hmacfn", SeqB, func(a []*Term) *Term { return App("hashsize", SInt, a[0]) }, SInt, SeqB, SeqB)
	u("hashfn", SeqB, func(a []*Term) *Term { return App("hashsize", SInt, a[0]) }, SInt, SeqB)
	u("hashsize", SInt, nil, SInt)
	defs["hashsize"].Lo, defs["hashsize"].Hi = big.NewInt(1), big.NewInt(1024)
	u("osok", SBool, nil, SInt)
	u("osrand", SeqB, func(a []*Term) *Term { return a[1] }, SInt, SInt)
	u("osrandint", SInt, nil, SInt, SInt)
	u("osprime", SInt, nil, SInt, SInt)
	u("isprime", SBool, nil, SInt)
	// letter case, on ASCII text
	for _, n := range []string{"lower", "upper"} {
		p := Var("p:"+n, SeqB)
		i := Fresh("lc", SInt)
		g := Get(p, i, nil)
		var b *Term
		if n == "lower" {
			b = Ite(And(Ge(g, Int(65)), Le(g, Int(90))), AddK(g, 32), g)
		} else {
			b = Ite(And(Ge(g, Int(97)), Le(g, Int(122))), AddK(g, -32), g)
		}
		defs[n].Body = Tab(Zero, Len(p), abstract(b, i), SeqB)
		defs[n].pvars = []*Term{p}
	}
}
