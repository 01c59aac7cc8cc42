package main

// Remaining SSA instructions.

import (
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func identOf(x *ssa.DebugRef) (string, bool) {
	if id, ok := x.Expr.(*ast.Ident); ok {
		return id.Name, true
	}
	return "", false
}

func (ex *Exec) nonNil(st *State, p *PtrV) {
	if p.Ref != nil && p.Cell == 0 && p.Glob == nil && p.Sl == nil && p.Arr == nil {
		if l, _ := Range(p.Ref); l != nil && l.Sign() > 0 {
			return
		}
		ex.oblige(st, "panic", "nil pointer dereference", Ne(p.Ref, Zero))
	}
}

func (ex *Exec) inBounds(st *State, i, n *Term) {
	ex.oblige(st, "panic", "index out of range", And(Ge0(i), Lt(i, n)))
}

func (ex *Exec) allocVal(st *State, t types.Type) *PtrV {
	if isBigInt(t) {
		r := ex.allocRef(st)
		ex.rawStore(st, r, "big.$v", SInt, nil, Zero)
		return &PtrV{Ref: r, Key: "big", T: t}
	}
	switch u := under(t).(type) {
	case *types.Struct:
		r := ex.allocRef(st)
		z := ex.zero(t)
		if sv, ok := z.(*StructV); ok {
			ex.storeStruct(st, r, skey(t), sv)
		}
		return &PtrV{Ref: r, Key: skey(t), T: t}
	case *types.Array:
		s := seqSort(u.Elem())
		c := ex.zeroSeq(st, Int(u.Len()), u.Elem(), s)
		sl := ex.newSlice(st, c, u.Elem(), true)
		return &PtrV{Sl: sl, T: t}
	}
	ex.nextID++
	st.cells[ex.nextID] = ex.zero(t)
	return &PtrV{Cell: ex.nextID, T: t}
}

func (ex *Exec) zeroSeq(st *State, n *Term, elem types.Type, s *Sort) *Term {
	if _, ok := under(elem).(*types.Struct); ok {
		k, isC := n.Int64()
		if !isC || k > 4096 {
			ex.unsup("make of a symbolic number of structs")
		}
		var xs []*Term
		for i := int64(0); i < k; i++ {
			xs = append(xs, ex.boxStruct(st, ex.zero(elem).(*StructV)))
		}
		return Lit(s, xs...)
	}
	if a, ok := under(elem).(*types.Array); ok && s == SeqS {
		return Rep(n, Rep(Int(a.Len()), Zero, SeqB), s)
	}
	return Rep(n, ex.zeroElem(elem, s), s)
}

func (ex *Exec) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		p := ex.allocVal(st, t)
		fr.env[x] = p
		if x.Comment != "" {
			fr.names[x.Comment] = &addrOf{p}
		}
	case *ssa.BinOp:
		fr.env[x] = ex.binop(fr, st, x)
	case *ssa.UnOp:
		fr.env[x] = ex.unop(fr, st, x)
	case *ssa.ChangeType:
		v := ex.val(fr, st, x.X)
		switch y := v.(type) {
		case *PtrV:
			n := *y
			if pt, ok := under(x.Type()).(*types.Pointer); ok {
				n.T = pt.Elem()
				if y.Ref != nil && skey(y.T) != skey(n.T) {
					ex.unsup("pointer conversion between named types")
				}
			}
			v = &n
		case *StructV:
			v = &StructV{T: x.Type(), F: y.F}
		}
		fr.env[x] = v
	case *ssa.ChangeInterface:
		fr.env[x] = ex.val(fr, st, x.X)
	case *ssa.MakeInterface:
		v := ex.val(fr, st, x.X)
		fr.env[x] = ex.mkIface(st, x.X.Type(), v)
	case *ssa.Convert:
		fr.env[x] = ex.convert(st, ex.val(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		tv, ok := ex.val(fr, st, x.Tuple).(TupleV)
		if !ok || x.Index >= len(tv) {
			ex.unsup("extract from %T", ex.val(fr, st, x.Tuple))
		}
		fr.env[x] = tv[x.Index]
	case *ssa.Field:
		v := ex.val(fr, st, x.X)
		sv, ok := v.(*StructV)
		if !ok {
			ex.unsup("field of %T", v)
		}
		fr.env[x] = sv.F[x.Field]
	case *ssa.FieldAddr:
		fr.env[x] = ex.fieldAddr(st, ex.val(fr, st, x.X), x.Field)
	case *ssa.Index:
		v := ex.val(fr, st, x.X)
		i := ex.term(fr, st, x.Index)
		c, ok := v.(*Term)
		if !ok {
			ex.unsup("index of %T", v)
		}
		ex.inBounds(st, i, Len(c))
		var et types.Type
		switch u := under(x.X.Type()).(type) {
		case *types.Array:
			et = u.Elem()
		default:
			et = types.Typ[types.Uint8]
		}
		fr.env[x] = ex.fromElem(st, Get(c, i, ex.decider(st)), et)
	case *ssa.IndexAddr:
		fr.env[x] = ex.indexAddr(st, ex.val(fr, st, x.X), ex.term(fr, st, x.Index), x.X.Type())
	case *ssa.Lookup:
		fr.env[x] = ex.lookup(fr, st, x)
	case *ssa.MakeClosure:
		f := &FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, ex.val(fr, st, b))
		}
		fr.env[x] = f
	case *ssa.MakeMap:
		ex.nextID++
		m := &MapV{T: under(x.Type()).(*types.Map), Obj: ex.nextID}
		st.maps[ex.nextID] = m
		fr.env[x] = m
	case *ssa.MapUpdate:
		m := ex.val(fr, st, x.Map)
		mv, ok := m.(*MapV)
		if !ok || mv.Obj == 0 {
			ex.unsup("update of unknown map")
		}
		k, v := ex.val(fr, st, x.Key), ex.val(fr, st, x.Value)
		cur := st.maps[mv.Obj]
		if kt, ok := k.(*Term); ok && ex.initMode && closedConst(kt) && (cur.idx != nil || len(cur.Keys) == 0) {
			if cur.idx == nil {
				cur.idx = map[*Term]int{}
			}
			if i, ok := cur.idx[kt]; ok {
				cur.Vals[i] = v
			} else {
				cur.idx[kt] = len(cur.Keys)
				cur.Keys = append(cur.Keys, k)
				cur.Vals = append(cur.Vals, v)
			}
			break
		}
		n := &MapV{T: cur.T, Obj: cur.Obj}
		done := false
		for i := range cur.Keys {
			eq := ex.eqVal(st, cur.Keys[i], k, cur.T.Key())
			n.Keys = append(n.Keys, cur.Keys[i])
			if eq == True {
				n.Vals = append(n.Vals, v)
				done = true
				continue
			}
			if eq != False {
				ex.unsup("map update with symbolic key")
			}
			n.Vals = append(n.Vals, cur.Vals[i])
		}
		if !done {
			n.Keys = append(n.Keys, k)
			n.Vals = append(n.Vals, v)
		}
		st.maps[mv.Obj] = n
		st.log.wmap(mv.Obj)
	case *ssa.MakeSlice:
		n := ex.term(fr, st, x.Len)
		c := ex.term(fr, st, x.Cap)
		el := under(x.Type()).(*types.Slice).Elem()
		if ex.ct != nil && ex.ct.allocLimit != nil {
			ex.ct.allocLimit(ex, st, n, c)
		}
		if n != c {
			ex.oblige(st, "panic", "makeslice: len out of range", And(Ge0(n), Le(n, c), Le(c, IntB(maxMake))))
		} else {
			ex.oblige(st, "panic", "makeslice: len out of range", And(Ge0(n), Le(n, IntB(maxMake))))
		}
		s := seqSort(el)
		sl := ex.newSlice(st, ex.zeroSeq(st, n, el, s), el, n == c)
		if n != c {
			sl.Cap = c
		}
		fr.env[x] = sl
	case *ssa.Slice:
		fr.env[x] = ex.sliceOp(fr, st, x)
	case *ssa.SliceToArrayPointer:
		v := ex.val(fr, st, x.X).(*SliceV)
		at := under(x.Type().(*types.Pointer).Elem()).(*types.Array)
		ex.oblige(st, "panic", "slice to array conversion", Ge(v.Len, Int(at.Len())))
		n := *v
		n.Len = Int(at.Len())
		fr.env[x] = &PtrV{Sl: &n, T: x.Type().(*types.Pointer).Elem()}
	case *ssa.Store:
		p, ok := ex.val(fr, st, x.Addr).(*PtrV)
		if !ok {
			ex.unsup("store through %T", ex.val(fr, st, x.Addr))
		}
		ex.nonNil(st, p)
		ex.store(st, p, ex.val(fr, st, x.Val))
	case *ssa.Range:
		v := ex.val(fr, st, x.X)
		fr.env[x] = &rangeIter{src: v, pos: 0, cell: ex.newCell(st, Zero)}
	case *ssa.Next:
		fr.env[x] = ex.next(fr, st, x)
	case *ssa.TypeAssert:
		fr.env[x] = ex.typeAssert(fr, st, x)
	case *ssa.Send, *ssa.Select:
		ex.unsup("channel operation")
	case *ssa.MakeChan:
		fr.env[x] = OpaqueV{T: x.Type()}
	default:
		ex.unsup("instruction %T", in)
	}
}

type rangeIter struct {
	src  Val
	pos  int
	cell int
}

func (ex *Exec) newCell(st *State, v Val) int {
	ex.nextID++
	st.cells[ex.nextID] = v
	return ex.nextID
}

func (ex *Exec) next(fr *Frame, st *State, x *ssa.Next) Val {
	it, ok := ex.val(fr, st, x.Iter).(*rangeIter)
	if !ok {
		ex.unsup("next of unknown iterator")
	}
	pos := st.cells[it.cell].(*Term)
	if x.IsString {
		s, ok := it.src.(*Term)
		if !ok {
			ex.unsup("range over %T", it.src)
		}
		if s.Op == OLit {
			if p, okc := pos.Int64(); okc {
				b, okb := constBytes(s)
				if okb {
					if p >= int64(len(b)) {
						return TupleV{False, Zero, Zero}
					}
					r, n := utf8.DecodeRune(b[p:])
					st.cells[it.cell] = Int(p + int64(n))
					st.log.wcell(it.cell)
					return TupleV{True, Int(p), Int(int64(r))}
				}
			}
		}
		// symbolic string: a rune below 0x80 is one byte; otherwise the rune and width are unknown
		ok2 := Lt(pos, Len(s))
		b := Get(s, pos, ex.decider(st))
		ascii := Lt(b, Int(128))
		w := App("utf8width", SInt, s, pos)
		r := App("utf8rune", SInt, s, pos)
		width := Ite(ascii, One, w)
		ex.assume(st, Implies(And(ok2, Not(ascii)), And(Ge(w, One), Le(w, Int(4)), Le(Add(pos, w), Len(s)), Ge(r, Int(128)), Le(r, Int(0x10ffff)))))
		st.cells[it.cell] = Ite(ok2, Add(pos, width), pos)
		st.log.wcell(it.cell)
		return TupleV{ok2, pos, Ite(ascii, b, r)}
	}
	mv, ok := it.src.(*MapV)
	if !ok {
		ex.unsup("range over unknown map")
	}
	if mv.Obj != 0 && st.maps[mv.Obj] != nil {
		mv = st.maps[mv.Obj]
	}
	p, okc := pos.Int64()
	if !okc {
		ex.unsup("symbolic map iteration")
	}
	st.log.wcell(it.cell)
	if int(p) >= len(mv.Keys) {
		return TupleV{False, ex.zero(mv.T.Key()), ex.zero(mv.T.Elem())}
	}
	st.cells[it.cell] = Int(p + 1)
	return TupleV{True, mv.Keys[p], mv.Vals[p]}
}

func constBytes(s *Term) ([]byte, bool) {
	if s.Op != OLit {
		return nil, false
	}
	out := make([]byte, len(s.Args))
	for i, a := range s.Args {
		if !a.isConst() {
			return nil, false
		}
		out[i] = byte(a.K.Int64())
	}
	return out, true
}

func (ex *Exec) mkIface(st *State, t types.Type, v Val) *IfaceV {
	iv := &IfaceV{Dyn: t, V: v}
	return iv
}

func (ex *Exec) fieldAddr(st *State, v Val, f int) Val {
	p, ok := v.(*PtrV)
	if !ok {
		ex.unsup("field address of %T", v)
	}
	u := under(p.T).(*types.Struct)
	fd := u.Field(f)
	switch {
	case p.Glob != nil:
		ref := ex.eng.globalRef(p.Glob)
		if ref == nil {
			ex.unsup("field of package variable %s", p.Glob.Name())
		}
		return &PtrV{Ref: ref, Key: fieldKey(skey(p.T), fd, f), T: fd.Type()}
	case p.Sl != nil || p.Arr != nil:
		var e *Term
		if p.Sl != nil {
			e = Get(ex.content(st, p.Sl), p.Idx, ex.decider(st))
		} else {
			e = Get(ex.load(st, p.Arr).(*Term), p.Idx, ex.decider(st))
		}
		return &PtrV{Ref: e, Key: fieldKey(skey(p.T), fd, f), T: fd.Type()}
	case p.Cell != 0:
		ex.unsup("field of a cell")
	}
	ex.nonNil(st, p)
	key := p.Key
	if key == "" {
		key = skey(p.T)
	}
	if _, named := types.Unalias(p.T).(*types.Named); named && !isNestedKey(key, p.T) {
		key = skey(p.T)
	}
	return &PtrV{Ref: p.Ref, Key: fieldKey(key, fd, f), T: fd.Type()}
}

// isNestedKey: the key already denotes an embedded struct location (owner.field).
func isNestedKey(key string, t types.Type) bool { return key != skey(t) }

func (ex *Exec) indexAddr(st *State, v Val, i *Term, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Slice:
		s, ok := v.(*SliceV)
		if !ok {
			ex.unsup("index address of %T", v)
		}
		ex.inBounds(st, i, s.Len)
		return &PtrV{Sl: s, Idx: i, T: u.Elem()}
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		p, ok := v.(*PtrV)
		if !ok {
			ex.unsup("index address of %T", v)
		}
		ex.inBounds(st, i, Int(a.Len()))
		if p.Sl != nil && p.Idx == nil {
			return &PtrV{Sl: p.Sl, Idx: i, T: a.Elem()}
		}
		ex.nonNil(st, p)
		return &PtrV{Arr: p, Idx: i, T: a.Elem()}
	}
	ex.unsup("index address into %s", t)
	return nil
}

func (ex *Exec) sliceOp(fr *Frame, st *State, x *ssa.Slice) Val {
	v := ex.val(fr, st, x.X)
	var lo, hi, max *Term
	lo = Zero
	if x.Low != nil {
		lo = ex.term(fr, st, x.Low)
	}
	if x.High != nil {
		hi = ex.term(fr, st, x.High)
	}
	if x.Max != nil {
		max = ex.term(fr, st, x.Max)
	}
	switch y := v.(type) {
	case *Term: // string
		if hi == nil {
			hi = Len(y)
		}
		ex.oblige(st, "panic", "slice bounds out of range", And(Ge0(lo), Le(lo, hi), Le(hi, Len(y))))
		return SubSeq(y, lo, hi, ex.decider(st))
	case *SliceV:
		return ex.reslice(st, y, lo, hi, max)
	case *PtrV:
		if y.Sl != nil && y.Idx == nil {
			return ex.reslice(st, y.Sl, lo, hi, max)
		}
		// slice of an array-typed field: a read-only view
		av, ok := ex.load(st, y).(*Term)
		if !ok {
			ex.unsup("slice of array pointer")
		}
		el := under(y.T).(*types.Array).Elem()
		s := pureSlice(av, False, el)
		s.Cap = Len(av)
		if y.Ref != nil {
			s.HP = &PtrV{Ref: y.Ref, Key: y.Key, T: y.T}
		} else if y.Glob == nil {
			ex.unsup("slice of nested array")
		}
		return ex.reslice(st, s, lo, hi, max)
	}
	ex.unsup("slice of %T", v)
	return nil
}

func (ex *Exec) reslice(st *State, y *SliceV, lo, hi, max *Term) *SliceV {
	cp := y.Cap
	if hi == nil {
		hi = y.Len
	}
	bound := y.Len
	if cp != nil {
		bound = cp
	}
	if hi == y.Len {
		ex.oblige(st, "panic", "slice bounds out of range", And(Ge0(lo), Le(lo, hi)))
	} else if cp == nil || cp == y.Len {
		ex.oblige(st, "panic", "slice bounds out of range", And(Ge0(lo), Le(lo, hi), Le(hi, bound)))
	} else {
		ex.oblige(st, "panic", "slice bounds out of range", And(Ge0(lo), Le(lo, hi), Le(hi, cp)))
		if !ex.sess.Implied(st.pc, Le(hi, y.Len)) {
			// extends into spare capacity: the extra cells are unknown
			c := ex.content(st, y)
			n := ex.freshSeq("spare", c.Sort, y.Elem, st)
			ex.assume(st, Eq(Len(n), Sub(cp, y.Len)))
			sl := ex.newSlice(st, SubSeq(CatS(c.Sort, c, n), lo, hi, ex.decider(st)), y.Elem, false)
			return sl
		}
	}
	r := *y
	r.Off = Add(y.Off, lo)
	r.Len = Sub(hi, lo)
	if max != nil {
		ex.oblige(st, "panic", "slice bounds out of range", And(Le(hi, max)))
		r.Cap = Sub(max, lo)
	} else if cp != nil {
		r.Cap = Sub(cp, lo)
	} else if hi != y.Len {
		r.Cap = nil
	}
	return &r
}

func (ex *Exec) lookup(fr *Frame, st *State, x *ssa.Lookup) Val {
	v := ex.val(fr, st, x.X)
	if s, ok := v.(*Term); ok {
		i := ex.term(fr, st, x.Index)
		ex.inBounds(st, i, Len(s))
		return Get(s, i, ex.decider(st))
	}
	mt := under(x.X.Type()).(*types.Map)
	k := ex.val(fr, st, x.Index)
	mv, ok := v.(*MapV)
	if !ok {
		if o, isO := v.(OpaqueV); isO && o.H != nil && isString(mt.Key()) && heapSort(mt.Elem()) == SInt {
			res, has := ex.mapGet(o.H, k.(*Term), mt.Elem())
			ex.assume(st, Implies(Not(has), Eq(res, Zero)))
			ex.assume(st, ex.typeRange(res, mt.Elem()))
			if x.CommaOk {
				return TupleV{res, has}
			}
			return res
		}
		// unknown map: an unknown but well-typed value
		val := ex.freshVal(st, "mapval", mt.Elem(), false)
		if x.CommaOk {
			return TupleV{val, Fresh("mapok", SBool)}
		}
		return val
	}
	if mv.Obj != 0 && st.maps[mv.Obj] != nil {
		mv = st.maps[mv.Obj]
	}
	res := ex.zero(mt.Elem())
	found := False
	for i := len(mv.Keys) - 1; i >= 0; i-- {
		eq := ex.eqVal(st, k, mv.Keys[i], mt.Key())
		if eq == False {
			continue
		}
		if eq == True {
			res, found = mv.Vals[i], True
			break
		}
		r, ok := ex.iteVal(st, eq, mv.Vals[i], res, mt.Elem())
		if !ok {
			ex.unsup("symbolic lookup in a map of %s", mt.Elem())
		}
		res = r
		found = Or(eq, found)
	}
	if x.CommaOk {
		return TupleV{res, found}
	}
	return res
}

// iteVal merges two values under a condition when they have a common shape.
func (ex *Exec) iteVal(st *State, c *Term, a, b Val, t types.Type) (Val, bool) {
	if c == True {
		return a, true
	}
	if c == False {
		return b, true
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.Sort == y.Sort {
			return Ite(c, x, y), true
		}
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			return nil, false
		}
		if x.Obj == y.Obj && x.HP == y.HP && (x.Obj > 0 || x.C == y.C) {
			n := *x
			n.Nil, n.Off, n.Len = Ite(c, x.Nil, y.Nil), Ite(c, x.Off, y.Off), Ite(c, x.Len, y.Len)
			if x.Cap != y.Cap {
				n.Cap = nil
			}
			return &n, true
		}
		ca, cb := ex.content(st, x), ex.content(st, y)
		return pureSlice(Ite(c, ca, cb), Ite(c, x.Nil, y.Nil), x.Elem), true
	case *PtrV:
		y, ok := b.(*PtrV)
		if ok && x.Ref != nil && y.Ref != nil && x.Sl == nil && y.Sl == nil && x.Arr == nil && y.Arr == nil && (x.Key == y.Key || x.Ref == Zero || y.Ref == Zero) {
			k, tt := x.Key, x.T
			if x.Ref == Zero {
				k, tt = y.Key, y.T
			}
			return &PtrV{Ref: Ite(c, x.Ref, y.Ref), Key: k, T: tt}, true
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			return &IfaceV{H: Ite(c, ex.ifaceHandle(st, x), ex.ifaceHandle(st, y))}, true
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok && len(x.Bind) == 0 && len(y.Bind) == 0 {
			return ex.funcFrom(Ite(c, ex.funcHandle(x), ex.funcHandle(y))), true
		}
	case *StructV:
		if y, ok := b.(*StructV); ok {
			n := &StructV{T: x.T}
			u := under(x.T).(*types.Struct)
			for i := range x.F {
				f, ok := ex.iteVal(st, c, x.F[i], y.F[i], u.Field(i).Type())
				if !ok {
					return nil, false
				}
				n.F = append(n.F, f)
			}
			return n, true
		}
	case OpaqueV:
		return x, true
	}
	return nil, false
}

func (ex *Exec) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) Val {
	iv, ok := ex.val(fr, st, x.X).(*IfaceV)
	if !ok {
		ex.unsup("type assertion on %T", ex.val(fr, st, x.X))
	}
	if iv.Dyn == nil && iv.H != nil && iv.H != Zero {
		if d, ok := ex.eng.regIface(iv.H); ok {
			iv = d
		}
	}
	isI := types.IsInterface(x.AssertedType)
	if iv.Dyn != nil {
		match := false
		if isI {
			match = types.Implements(iv.Dyn, under(x.AssertedType).(*types.Interface))
		} else {
			match = types.Identical(iv.Dyn, x.AssertedType)
		}
		var res Val
		if match {
			res = iv.V
			if isI {
				res = iv
			}
		} else {
			res = ex.zero(x.AssertedType)
		}
		if x.CommaOk {
			return TupleV{res, BoolT(match)}
		}
		if !match {
			ex.fail(st, "panic", "type assertion to "+typeKey(x.AssertedType))
		}
		return res
	}
	if iv.H == Zero {
		if x.CommaOk {
			return TupleV{ex.zero(x.AssertedType), False}
		}
		ex.fail(st, "panic", "type assertion on nil interface")
		return ex.zero(x.AssertedType)
	}
	tag := Eq(App("dyntype", SInt, iv.H), Int(ex.eng.typeID(x.AssertedType)))
	var res Val
	if isI {
		res = iv
		tag = App("implements", SBool, iv.H, Int(ex.eng.typeID(x.AssertedType)))
	} else if pt, ok := under(x.AssertedType).(*types.Pointer); ok {
		r := App("ifaceptr", SInt, iv.H)
		ex.assume(st, And(Ge0(r), Lt(r, st.alloc)))
		res = &PtrV{Ref: r, Key: ptrKey(pt.Elem()), T: pt.Elem()}
	} else {
		res = ex.freshVal(st, "assert", x.AssertedType, false)
	}
	if x.CommaOk {
		z := ex.zero(x.AssertedType)
		if m, ok := ex.iteVal(st, tag, res, z, x.AssertedType); ok {
			return TupleV{m, tag}
		}
		return TupleV{res, tag}
	}
	ex.oblige(st, "panic", "type assertion to "+typeKey(x.AssertedType), And(Ne(iv.H, Zero), tag))
	return res
}

func (ex *Exec) binop(fr *Frame, st *State, x *ssa.BinOp) Val {
	a, b := ex.val(fr, st, x.X), ex.val(fr, st, x.Y)
	return ex.binopV(st, x.Op, a, b, x.X.Type(), x.Type())
}

func (ex *Exec) binopV(st *State, op token.Token, a, b Val, t, rt types.Type) Val {
	switch op {
	case token.EQL:
		return ex.eqVal(st, a, b, t)
	case token.NEQ:
		return Not(ex.eqVal(st, a, b, t))
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		ex.unsup("operator %s on %T and %T", op, a, b)
	}
	if isString(t) {
		switch op {
		case token.ADD:
			return Cat(x, y)
		case token.LSS:
			return strLess(x, y)
		case token.GTR:
			return strLess(y, x)
		case token.LEQ:
			return Not(strLess(y, x))
		case token.GEQ:
			return Not(strLess(x, y))
		}
	}
	if isFloat(t) {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return App("f"+map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "quo"}[op], SInt, x, y)
		case token.LSS:
			return App("flt", SBool, x, y)
		case token.GTR:
			return App("flt", SBool, y, x)
		case token.LEQ:
			return App("fle", SBool, x, y)
		case token.GEQ:
			return App("fle", SBool, y, x)
		}
	}
	if isBool(t) {
		switch op {
		case token.AND, token.LAND:
			return And(x, y)
		case token.OR, token.LOR:
			return Or(x, y)
		}
	}
	switch op {
	case token.LSS:
		return Lt(x, y)
	case token.LEQ:
		return Le(x, y)
	case token.GTR:
		return Gt(x, y)
	case token.GEQ:
		return Ge(x, y)
	case token.SHL, token.SHR:
		if l, _ := Range(y); l == nil || l.Sign() < 0 {
			ex.oblige(st, "panic", "negative shift count", Ge0(y))
		}
		return ex.shiftOp(st, op, x, y, rt)
	}
	return ex.arith(st, op, x, y, rt)
}

func (ex *Exec) unop(fr *Frame, st *State, x *ssa.UnOp) Val {
	v := ex.val(fr, st, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(*PtrV)
		if !ok {
			ex.unsup("load through %T", v)
		}
		ex.nonNil(st, p)
		r := ex.load(st, p)
		if r == nil {
			ex.unsup("load of unset location %v", x.X)
		}
		return r
	case token.NOT:
		return Not(v.(*Term))
	case token.SUB:
		if isFloat(x.Type()) {
			return App("fneg", SInt, v.(*Term))
		}
		return ex.wrap(st, Neg(v.(*Term)), x.Type())
	case token.XOR:
		t := v.(*Term)
		bits, signed, _ := intInfo(x.Type())
		if signed {
			return AddK(Neg(t), -1)
		}
		full := new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(bits)), bigOne)
		return Sub(IntB(full), t)
	case token.ARROW:
		ex.unsup("channel receive")
	}
	ex.unsup("unary %s", x.Op)
	return nil
}

func (ex *Exec) convert(st *State, v Val, from, to types.Type) Val {
	if t, ok := v.(*Term); ok {
		_, _, fi := intInfo(from)
		_, _, ti := intInfo(to)
		switch {
		case fi && ti:
			save := ex.optim
			ex.optim = 0
			r := ex.wrap(st, t, to)
			ex.optim = save
			return r
		case fi && isFloat(to):
			return App("itof", SInt, t)
		case isFloat(from) && ti:
			r := App("ftoi_"+typeKey(to), SInt, t)
			if rg, ok := typeRange(to); ok {
				ex.assume(st, And(Ge(r, IntB(rg.lo)), Le(r, IntB(rg.hi))))
			}
			return r
		case isFloat(from) && isFloat(to):
			return t
		case isString(from) && isString(to):
			return t
		case fi && isString(to):
			if l, h := Range(t); l != nil && h != nil && l.Sign() >= 0 && h.Cmp(big.NewInt(127)) <= 0 {
				return Lit(SeqB, t)
			}
			return App("runestr", SeqB, t)
		case isString(from):
			if sl, ok := under(to).(*types.Slice); ok {
				if isByte(sl.Elem()) {
					r := ex.newSlice(st, t, sl.Elem(), false)
					return r
				}
				if b, ok := constBytes(t); ok {
					var xs []*Term
					for _, r := range string(b) {
						xs = append(xs, Int(int64(r)))
					}
					return ex.newSlice(st, Lit(SeqI, xs...), sl.Elem(), false)
				}
				return ex.freshVal(st, "runes", to, true)
			}
		}
		return t
	}
	if s, ok := v.(*SliceV); ok && isString(to) {
		c := ex.content(st, s)
		if c.Sort == SeqB {
			return c
		}
		return App("runesstr", SeqB, c)
	}
	if p, ok := v.(*PtrV); ok {
		if b, okb := under(to).(*types.Basic); okb && b.Kind() == types.UnsafePointer {
			_ = p
			ex.unsup("unsafe pointer")
		}
		return p
	}
	return v
}

// closedConst: a literal whose identity decides equality with other literals.
func closedConst(t *Term) bool {
	if t.isConst() {
		return true
	}
	if t.Op == OLit {
		for _, a := range t.Args {
			if !a.isConst() {
				return false
			}
		}
		return true
	}
	return false
}

// mapGet: the value and presence of a key in a map known only by its identity.
func (ex *Exec) mapGet(h, k *Term, t types.Type) (*Term, *Term) {
	return App("mapint", SInt, h, k), App("maphas", SBool, h, k)
}

func (ex *Exec) typeRange(v *Term, t types.Type) *Term {
	r, ok := typeRange(t)
	if !ok || r.lo == nil || r.hi == nil {
		return True
	}
	return And(Ge(v, IntB(r.lo)), Le(v, IntB(r.hi)))
}
