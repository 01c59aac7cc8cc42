package main

// Symbolic execution of go/ssa functions against contracts.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Fn     string
	Kind   string
	Name   string
	PC     []*Term
	Goal   *Term
	Pos    string
	Status string // discharged, failed
	By     string
	Secs   float64
	Out    string
	Script string
	Model  string
	Mods   []modSplit
}

type modSplit struct {
	t *Term
	m int64
	// all: t is one of 0..m-1 (proved), and the proof goes by these values
	all bool
}

type Exec struct {
	eng        *Engine
	fn         *ssa.Function
	ct         *Contract
	sess       *Session
	obls       []*Obl
	mods       []modSplit
	suppress   int
	old        *State
	params     map[string]Val
	alloc0     *Term
	nextID     int
	paths      int
	loopOrd    int
	loopIDs    map[string]int
	assumed    map[string]bool // assumptions used
	used       map[string]bool // contracts used
	inlined    map[string]bool
	optim      int // >0: arithmetic treated as non-wrapping (loop discovery only)
	cur        *ssa.Function
	pos        token.Pos
	initMode   bool
	initCells  map[*ssa.Global]int
	globCells  map[*ssa.Global]int // package variables the contract lets the function write
	steps      int
	deadline   time.Time
	closedFail map[string]map[int]bool
	globs      map[*ssa.Global]Val
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	names  map[string]Val
	parent *Frame
	active map[*Loop]*active
	k      func(st *State, res []Val)
	depth  int
	freev  []Val
	hdr    map[*Loop]int
}

type active struct {
	mode   string // discover, final, unroll
	onBack func(st *State, fr *Frame, from *ssa.BasicBlock)
	noExit bool
	count  int
	log    *wlog
	lr     *loopRun
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.names = make(map[string]Val, len(f.names))
	for k, v := range f.names {
		n.names[k] = v
	}
	n.active = make(map[*Loop]*active, len(f.active))
	for k, v := range f.active {
		n.active[k] = v
	}
	return &n
}

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	loops := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				var st []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	return loops
}

func (ex *Exec) decider(st *State) Decider {
	return func(c *Term) bool {
		if c == True {
			return true
		}
		for _, p := range st.pc {
			if p == c {
				return true
			}
		}
		return ex.sess.Implied(st.pc, c)
	}
}

func (ex *Exec) assume(st *State, t *Term) {
	if t == True {
		return
	}
	if t.Op == OAnd {
		for _, a := range t.Args {
			ex.assume(st, a)
		}
		return
	}
	for _, p := range st.pc {
		if p == t {
			return
		}
	}
	st.pc = append(st.pc, t)
}

func (ex *Exec) where() string {
	if ex.pos.IsValid() {
		p := ex.eng.fset.Position(ex.pos)
		return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, ex.eng.repo+"/"), p.Line)
	}
	return ""
}

// oblige records that goal must hold on this path; afterwards it is assumed.
func (ex *Exec) oblige(st *State, kind, name string, goal *Term) {
	if ex.suppress > 0 {
		ex.assume(st, goal)
		return
	}
	if goal.Op == OAnd && kind != "raw" {
		for _, g := range goal.Args {
			ex.oblige(st, kind, name, g)
		}
		return
	}
	o := &Obl{Fn: ex.ctName(), Kind: kind, Name: name, PC: append([]*Term{}, st.pc...), Goal: goal, Pos: ex.where(), Mods: ex.mods}
	if goal == True {
		o.Status, o.By = "discharged", "gocv-simplifier"
	} else {
		for _, p := range st.pc {
			if p == goal {
				o.Status, o.By = "discharged", "gocv-simplifier"
			}
		}
	}
	ex.obls = append(ex.obls, o)
	ex.assume(st, goal)
}

func (ex *Exec) ctName() string {
	if ex.ct != nil {
		return ex.ct.ID()
	}
	if ex.fn != nil {
		return funcKey(ex.fn)
	}
	return "?"
}

func (ex *Exec) feasible(st *State, c *Term) bool {
	if c == True {
		return true
	}
	if c == False {
		return false
	}
	n := Not(c)
	for _, p := range st.pc {
		if p == n {
			return false
		}
	}
	return ex.sess.Feasible(st.pc, c)
}

func funcKey(f *ssa.Function) string {
	if f.Parent() != nil {
		return funcKey(f.Parent()) + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if recv := f.Signature.Recv(); recv != nil {
		t := recv.Type()
		if p, ok := t.(*types.Pointer); ok {
			n := p.Elem()
			return relPkg(namedPkg(n)) + ".(*" + namedName(n) + ")." + f.Name()
		}
		return relPkg(namedPkg(t)) + "." + namedName(t) + "." + f.Name()
	}
	if f.Pkg == nil {
		if f.Object() != nil && f.Object().Pkg() != nil {
			return relPkg(f.Object().Pkg()) + "." + f.Name()
		}
		return f.Name()
	}
	return relPkg(f.Pkg.Pkg) + "." + f.Name()
}
func namedPkg(t types.Type) *types.Package {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}
func namedName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// ---- fresh values

func (ex *Exec) freshInt(name string, t types.Type) *Term {
	n := freshName(name)
	if r, ok := typeRange(t); ok {
		return VarR(n, r.lo, r.hi)
	}
	return Var(n, SInt)
}

// freshVal makes an unconstrained value of Go type t.
func (ex *Exec) freshVal(st *State, name string, t types.Type, owned bool) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case isBool(t):
			return Fresh(name, SBool)
		case isString(t):
			return Fresh(name, SeqB)
		case isFloat(t):
			return Fresh(name+"_f", SInt)
		case u.Kind() == types.UnsafePointer:
			return OpaqueV{T: t}
		}
		if u.Kind() == types.UntypedNil {
			return &IfaceV{H: Zero}
		}
		return ex.freshInt(name, t)
	case *types.Pointer:
		r := VarR(freshName(name), new(big.Int), nil)
		ex.assume(st, Lt(r, st.alloc))
		return &PtrV{Ref: r, Key: ptrKey(u.Elem()), T: u.Elem()}
	case *types.Slice:
		s := seqSort(u.Elem())
		c := ex.freshSeq(name, s, u.Elem(), st)
		nl := Fresh(name+"_nil", SBool)
		ex.assume(st, Implies(nl, Eq(Len(c), Zero)))
		id := ex.newObj(st, c, u.Elem(), owned, name)
		return &SliceV{Nil: nl, Obj: id, Off: Zero, Len: Len(c), Elem: u.Elem()}
	case *types.Array:
		c := ex.freshSeq(name, seqSort(u.Elem()), u.Elem(), st)
		ex.assume(st, Eq(Len(c), Int(u.Len())))
		return c
	case *types.Struct:
		sv := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, ex.freshVal(st, name+"."+u.Field(i).Name(), u.Field(i).Type(), owned))
		}
		return sv
	case *types.Interface:
		h := VarR(freshName(name), new(big.Int), nil)
		ex.assume(st, Lt(h, st.alloc))
		return &IfaceV{H: h}
	case *types.Signature:
		return &FuncV{H: VarR(freshName(name), new(big.Int), nil)}
	case *types.Map:
		return OpaqueV{T: t}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, ex.freshVal(st, fmt.Sprintf("%s.%d", name, i), u.At(i).Type(), owned))
		}
		return tv
	}
	return OpaqueV{T: t}
}

func (ex *Exec) freshSeq(name string, s *Sort, elem types.Type, st *State) *Term {
	n := freshName(name)
	if s == SeqI && elem != nil {
		tmu.Lock()
		if r, ok := typeRange(elem); ok {
			arrRange[n] = r
		} else {
			arrRange[n] = rng{new(big.Int), nil}
			if st != nil {
				arrBound[n] = st.alloc
			}
		}
		tmu.Unlock()
	}
	return Var(n, s)
}

func (ex *Exec) newObj(st *State, c *Term, elem types.Type, owned bool, note string) int {
	ex.nextID++
	st.objs[ex.nextID] = &Obj{C: c, Elem: elem, Owned: owned, Note: note}
	return ex.nextID
}

func ptrKey(t types.Type) string {
	if isBigInt(t) {
		return "big"
	}
	return skey(t)
}

// ---- zero values

func (ex *Exec) zero(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		if isBool(t) {
			return False
		}
		if isString(t) {
			return Empty(SeqB)
		}
		if u.Kind() == types.UntypedNil {
			return &IfaceV{H: Zero}
		}
		return Zero
	case *types.Pointer:
		return &PtrV{Ref: Zero, Key: ptrKey(u.Elem()), T: u.Elem()}
	case *types.Slice:
		return &SliceV{Nil: True, C: Empty(seqSort(u.Elem())), Off: Zero, Len: Zero, Cap: Zero, Elem: u.Elem()}
	case *types.Array:
		s := seqSort(u.Elem())
		return Rep(Int(u.Len()), ex.zeroElem(u.Elem(), s), s)
	case *types.Struct:
		sv := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, ex.zero(u.Field(i).Type()))
		}
		return sv
	case *types.Interface:
		return &IfaceV{H: Zero}
	case *types.Signature:
		return &FuncV{H: Zero}
	case *types.Map:
		return &MapV{T: u, Obj: 0}
	}
	return OpaqueV{T: t}
}
func (ex *Exec) zeroElem(t types.Type, s *Sort) *Term {
	switch s.Elem {
	case SInt:
		return Zero
	case SBool:
		return False
	}
	if a, ok := under(t).(*types.Array); ok {
		return Rep(Int(a.Len()), Zero, SeqB)
	}
	return Empty(SeqB)
}

// ---- slices

func (ex *Exec) content(st *State, s *SliceV) *Term {
	if s.Obj > 0 {
		o := st.objs[s.Obj]
		if o == nil {
			ex.unsup("dangling slice object")
		}
		if o.Poison != "" {
			ex.fail(st, "alias", o.Poison)
			o.Poison = ""
		}
		return SubSeq(o.C, s.Off, Add(s.Off, s.Len), ex.decider(st))
	}
	if s.Off == Zero && s.Len == Len(s.C) {
		return s.C
	}
	return SubSeq(s.C, s.Off, Add(s.Off, s.Len), ex.decider(st))
}

func (ex *Exec) newSlice(st *State, c *Term, elem types.Type, exact bool) *SliceV {
	id := ex.newObj(st, c, elem, true, "")
	st.objs[id].Exact = exact
	sl := &SliceV{Nil: False, Obj: id, Off: Zero, Len: Len(c), Elem: elem}
	if exact {
		sl.Cap = Len(c)
	}
	return sl
}

// pure makes an immutable slice value.
func pureSlice(c, nl *Term, elem types.Type) *SliceV {
	return &SliceV{Nil: nl, C: c, Off: Zero, Len: Len(c), Elem: elem}
}

// toTerm encodes a value as a sequence element or scalar heap content.
func (ex *Exec) toTerm(st *State, v Val, t types.Type) *Term {
	switch x := v.(type) {
	case *Term:
		if x.Sort == SBool {
			if heapSort(t) == SBool {
				return x
			}
		}
		return x
	case *PtrV:
		if x.Ref != nil && x.Sl == nil && x.Arr == nil && x.Glob == nil && x.Cell == 0 {
			return x.Ref
		}
		ex.unsup("address of a local or element stored in memory")
	case *IfaceV:
		return ex.ifaceHandle(st, x)
	case *SliceV:
		if x.Obj > 0 {
			if o := st.objs[x.Obj]; o != nil && o.Escape == "" {
				o.Escape = "stored"
			}
		}
		return ex.content(st, x)
	case *FuncV:
		return ex.funcHandle(x)
	case *StructV:
		return ex.boxStruct(st, x)
	case *MapV:
		return Int(int64(x.Obj))
	case OpaqueV:
		return Zero
	}
	ex.unsup("cannot store %T", v)
	return nil
}

func (ex *Exec) ifaceHandle(st *State, x *IfaceV) *Term {
	if x.H == nil {
		x.H = VarR(freshName("iface"), bigOne, nil)
		ex.eng.regMu.Lock()
		ex.eng.ifaceReg[x.H] = x
		ex.eng.regMu.Unlock()
	}
	return x.H
}

func (ex *Exec) funcHandle(f *FuncV) *Term {
	if f.H != nil {
		return f.H
	}
	return Int(ex.eng.funcID(f.Fn))
}

// boxStruct stores a struct value in a fresh immutable heap object.
func (ex *Exec) boxStruct(st *State, sv *StructV) *Term {
	r := ex.allocRef(st)
	ex.storeStruct(st, r, skey(sv.T), sv)
	return r
}

func (ex *Exec) allocRef(st *State) *Term {
	r := st.alloc
	st.alloc = AddK(st.alloc, 1)
	return r
}

func (ex *Exec) fromElem(st *State, e *Term, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Pointer:
		ex.refFact(st, e)
		return &PtrV{Ref: e, Key: ptrKey(u.Elem()), T: u.Elem()}
	case *types.Slice:
		return pureSlice(e, ex.nilFlagOf(st, e), u.Elem())
	case *types.Interface:
		return ex.ifaceFrom(st, e)
	case *types.Signature:
		return ex.funcFrom(e)
	case *types.Struct:
		return ex.loadStruct(st, e, skey(t), t)
	case *types.Map:
		return OpaqueV{T: t}
	case *types.Basic:
		if isBool(t) && e.Sort == SInt {
			return Not(Eq(e, Zero))
		}
	}
	return e
}

// nilFlagOf: whether a byte string held in another slice is nil is not tracked; it is
// an unknown that implies emptiness.
func (ex *Exec) nilFlagOf(st *State, e *Term) *Term {
	if isEmpty(e) || e.maxBV > 0 {
		return Eq(Len(e), Zero)
	}
	n := App("isnil", SBool, e)
	ex.assume(st, Implies(n, Eq(Len(e), Zero)))
	return n
}

func (ex *Exec) funcFrom(e *Term) Val {
	if k, ok := e.Int64(); ok {
		if k == 0 {
			return &FuncV{H: Zero}
		}
		if f := ex.eng.funcByID(k); f != nil {
			return &FuncV{Fn: f}
		}
	}
	return &FuncV{H: e}
}

func (ex *Exec) ifaceFrom(st *State, e *Term) *IfaceV {
	ex.refFact(st, e)
	if d, ok := ex.eng.regIface(e); ok {
		return d
	}
	return &IfaceV{H: e}
}

// refFact records that a reference read from pre-existing memory is older than anything allocated since.
func (ex *Exec) refFact(st *State, e *Term) {
	if e.maxBV > 0 || e.Sort != SInt {
		return
	}
	if b := refBound(e); b != nil {
		ex.assume(st, And(Ge0(e), Lt(e, b)))
	}
}

// ---- heap

func (ex *Exec) heapArr(st *State, key string, t types.Type, s *Sort) *Term {
	if a := st.heap[key]; a != nil {
		return a
	}
	// first touch anywhere in this verification: same base variable in every state
	v := ex.heapVar(key, t, s, ex.alloc0, "H:"+key)
	st.heap[key] = v
	return v
}

func (ex *Exec) loadHeap(st *State, ref *Term, key string, t types.Type) Val {
	if isBigInt(t) {
		return &StructV{T: t, F: []Val{ex.sel(st, "big.$v", nil, SInt, ref)}}
	}
	switch u := under(t).(type) {
	case *types.Struct:
		return ex.loadStruct(st, ref, key, t)
	case *types.Slice:
		s := seqSort(u.Elem())
		c := ex.sel(st, key, t, s, ref)
		nl := ex.sel(st, key+"#nil", nil, SBool, ref)
		if nl != True && nl != False {
			ex.assume(st, Implies(nl, Eq(Len(c), Zero)))
		}
		if s == SeqI && c.Op != OVar {
			ex.refFact(st, c)
		}
		return &SliceV{Nil: nl, C: c, Off: Zero, Len: Len(c), Elem: u.Elem(), HP: &PtrV{Ref: ref, Key: key, T: t}}
	case *types.Array:
		c := ex.sel(st, key, t, seqSort(u.Elem()), ref)
		if c.Op != OLit && c.maxBV == 0 {
			ex.assume(st, Eq(Len(c), Int(u.Len())))
		}
		return c
	case *types.Pointer:
		r := ex.sel(st, key, t, SInt, ref)
		ex.refFact(st, r)
		return &PtrV{Ref: r, Key: ptrKey(u.Elem()), T: u.Elem()}
	case *types.Interface:
		return ex.ifaceFrom(st, ex.sel(st, key, t, SInt, ref))
	case *types.Signature:
		return ex.funcFrom(ex.sel(st, key, t, SInt, ref))
	case *types.Map:
		m := ex.sel(st, key, t, SInt, ref)
		if id, ok := m.Int64(); ok {
			if id == 0 {
				return &MapV{T: u}
			}
			if mv := st.maps[int(id)]; mv != nil {
				return mv
			}
			if !ex.initMode {
				if mv := ex.eng.initSt.maps[int(id)]; mv != nil {
					return ex.importVal(mv, t, nil)
				}
			}
		}
		return OpaqueV{T: t}
	}
	return ex.sel(st, key, t, heapSort(t), ref)
}

func (ex *Exec) loadStruct(st *State, ref *Term, key string, t types.Type) Val {
	u := under(t).(*types.Struct)
	sv := &StructV{T: t}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		sv.F = append(sv.F, ex.loadHeap(st, ref, fieldKey(key, f, i), f.Type()))
	}
	return sv
}

func (ex *Exec) rawStore(st *State, ref *Term, key string, arr *Sort, t types.Type, v *Term) {
	st.heap[key] = Sto(ex.heapArr(st, key, t, arr), ref, v)
	st.log.wheap(key, ref)
}

func (ex *Exec) storeHeap(st *State, ref *Term, key string, t types.Type, v Val) {
	if isBigInt(t) {
		sv := v.(*StructV)
		ex.rawStore(st, ref, "big.$v", SInt, nil, sv.F[0].(*Term))
		return
	}
	switch u := under(t).(type) {
	case *types.Struct:
		ex.storeStruct(st, ref, key, v.(*StructV))
		return
	case *types.Slice:
		s := v.(*SliceV)
		// storing back what was loaded from here, appended: the owner stays the same
		c := ex.content(st, s)
		if s.Obj > 0 {
			if o := st.objs[s.Obj]; o != nil {
				o.Escape = key
				if o.Note == "append:"+key {
					o.Note = ""
				}
			}
		}
		ex.rawStore(st, ref, key, seqSort(u.Elem()), t, c)
		ex.rawStore(st, ref, key+"#nil", SBool, nil, s.Nil)
		return
	case *types.Map:
		if mv, ok := v.(*MapV); ok {
			ex.rawStore(st, ref, key, SInt, t, Int(int64(mv.Obj)))
			return
		}
		ex.rawStore(st, ref, key, SInt, t, Fresh("map", SInt))
		return
	}
	ex.rawStore(st, ref, key, heapSort(t), t, ex.toTerm(st, v, t))
}

func (ex *Exec) storeStruct(st *State, ref *Term, key string, sv *StructV) {
	u := under(sv.T).(*types.Struct)
	if isBigInt(sv.T) {
		ex.rawStore(st, ref, "big.$v", SInt, nil, sv.F[0].(*Term))
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		ex.storeHeap(st, ref, fieldKey(key, f, i), f.Type(), sv.F[i])
	}
}

// frameCheck: writes to memory that existed on entry must be announced by the contract.
func (ex *Exec) frameCheck(st *State, ref *Term, key string) {
	if ex.initMode || ex.suppress > 0 {
		return
	}
	if ge0(Sub(ref, ex.alloc0)) {
		return
	}
	if ex.ct != nil {
		var alts []*Term
		alts = append(alts, Ge(ref, ex.alloc0))
		for _, m := range ex.ct.mods(ex) {
			if m.matches(key) {
				if m.ref == nil {
					return
				}
				alts = append(alts, Eq(ref, m.ref))
			}
		}
		g := Or(alts...)
		if g == True {
			return
		}
		if ex.sess.Implied(st.pc, g) {
			return
		}
		ex.oblige(st, "frame", "writes "+key+" outside its frame", g)
	}
}

// ---- loads and stores through pointers

func (ex *Exec) load(st *State, p *PtrV) Val {
	switch {
	case p.Glob != nil:
		return ex.globalVal(st, p.Glob)
	case p.Cell != 0:
		return st.cells[p.Cell]
	case p.Sl != nil:
		c := ex.content(st, p.Sl)
		if p.Idx == nil {
			return c
		}
		e := Get(c, p.Idx, ex.decider(st))
		return ex.fromElem(st, e, p.T)
	case p.Arr != nil:
		av := ex.load(st, p.Arr)
		return ex.fromElem(st, Get(av.(*Term), p.Idx, ex.decider(st)), p.T)
	}
	return ex.loadHeap(st, p.Ref, p.Key, p.T)
}

func (ex *Exec) store(st *State, p *PtrV, v Val) {
	switch {
	case p.Glob != nil:
		if ex.initMode {
			id := ex.initCells[p.Glob]
			if id == 0 {
				ex.nextID++
				id = ex.nextID
				ex.initCells[p.Glob] = id
			}
			st.cells[id] = v
			return
		}
		if ex.ct != nil && ex.ct.ModGlobs[p.Glob.Name()] {
			id := ex.globCells[p.Glob]
			if id == 0 {
				if ex.globCells == nil {
					ex.globCells = map[*ssa.Global]int{}
				}
				ex.nextID++
				id = ex.nextID
				ex.globCells[p.Glob] = id
			}
			st.cells[id] = v
			st.log.wcell(id)
			return
		}
		ex.fail(st, "frame", "writes package variable "+p.Glob.Name())
	case p.Cell != 0:
		st.cells[p.Cell] = v
		st.log.wcell(p.Cell)
	case p.Sl != nil:
		if p.Idx == nil {
			nv := v.(*Term)
			ex.mutate(st, p.Sl, func(c, off *Term) *Term { return nv })
			return
		}
		ex.writeSlice(st, p.Sl, p.Idx, v)
	case p.Arr != nil:
		av := ex.load(st, p.Arr).(*Term)
		nv := Upd(av, p.Idx, ex.toTerm(st, v, p.T), ex.decider(st))
		ex.store(st, p.Arr, nv)
	default:
		ex.frameCheck(st, p.Ref, p.Key)
		ex.storeHeap(st, p.Ref, p.Key, p.T, v)
	}
}

func (ex *Exec) writeSlice(st *State, s *SliceV, idx *Term, v Val) {
	e := ex.toTerm(st, v, s.Elem)
	if e.Sort == SBool {
		e = Ite(e, One, Zero)
	}
	ex.mutate(st, s, func(c *Term, off *Term) *Term {
		return Upd(c, Add(off, idx), e, ex.decider(st))
	})
}

// mutate replaces the backing content of s.
func (ex *Exec) mutate(st *State, s *SliceV, f func(c, off *Term) *Term) {
	if s.Obj > 0 {
		o := st.objs[s.Obj]
		if o.Poison != "" {
			ex.fail(st, "alias", o.Poison)
			o.Poison = ""
		}
		if !o.Owned && !ex.initMode {
			if ex.ct == nil || !ex.ct.mayModifyContent(ex, s.Obj) {
				ex.fail(st, "frame", "writes into slice "+o.Note+" it does not own")
			}
		}
		if o.Escape != "" {
			ex.fail(st, "alias", "writes into a slice after storing it ("+o.Escape+")")
		}
		o.C = f(o.C, s.Off)
		st.log.wobj(s.Obj)
		for _, a := range o.Alias {
			if q := st.objs[a]; q != nil && a != s.Obj {
				q.Poison = "memory possibly shared after append was overwritten"
			}
		}
		return
	}
	if s.HP != nil {
		h := s.HP
		ex.frameCheck(st, h.Ref, h.Key)
		var el types.Type
		switch u := under(h.T).(type) {
		case *types.Slice:
			el = u.Elem()
		case *types.Array:
			el = u.Elem()
		}
		arr := ex.heapArr(st, h.Key, h.T, seqSort(el))
		cur := Sel(arr, h.Ref, ex.decider(st))
		ex.rawStore(st, h.Ref, h.Key, seqSort(el), h.T, f(cur, s.Off))
		return
	}
	if ex.initMode {
		return
	}
	ex.fail(st, "frame", "writes into a slice it does not own")
}

// appendTo models append(s, xs...).
func (ex *Exec) appendTo(st *State, s *SliceV, xs *Term) *SliceV {
	c := ex.content(st, s)
	nc := CatS(c.Sort, c, xs)
	r := &SliceV{Nil: And(s.Nil, Eq(Len(xs), Zero)), Off: Zero, Len: Len(nc), Elem: s.Elem}
	id := ex.newObj(st, nc, s.Elem, true, "")
	o := st.objs[id]
	r.Obj = id
	if isEmpty(xs) {
		return s
	}
	realloc := s.Cap != nil && s.Cap == s.Len && ge0(AddK(Len(xs), -1)) // capacity known to be exhausted
	if s.Cap != nil && s.Cap == Zero {
		realloc = true
	}
	if !realloc {
		if s.Obj > 0 {
			old := st.objs[s.Obj]
			o.Alias = append(append([]int{}, old.Alias...), s.Obj)
			for _, g := range old.Grown {
				if q := st.objs[g]; q != nil {
					q.Poison = "a second append to the same slice may overwrite the first result"
				}
			}
			old.Grown = append(append([]int{}, old.Grown...), id)
			if !old.Owned && !(ex.ct != nil && ex.ct.allow("append "+old.Note)) && ex.suppress == 0 && !ex.initMode {
				if Len(xs) != Zero {
					ex.oblige(st, "frame", "append may write into spare capacity of "+old.Note+", which the caller owns", False)
				}
			}
			st.log.wobj(s.Obj)
		} else if s.HP != nil {
			o.Note = "append:" + s.HP.Key
		}
	}
	return r
}

// ---- machine arithmetic

func (ex *Exec) wrap(st *State, v *Term, t types.Type) *Term {
	r, ok := typeRange(t)
	if !ok {
		return v
	}
	l, h := Range(v)
	loOK := l != nil && l.Cmp(r.lo) >= 0
	hiOK := h != nil && h.Cmp(r.hi) <= 0
	if loOK && hiOK {
		return v
	}
	if ex.optim > 0 {
		bits, _, _ := intInfo(t)
		if bits == 64 && (v.Op == OLin || v.Op == OVar) {
			return v
		}
	}
	if v.maxBV == 0 && st != nil {
		if !loOK {
			loOK = ex.sess.Implied(st.pc, Ge(v, IntB(r.lo)))
		}
		if loOK && !hiOK {
			hiOK = ex.sess.Implied(st.pc, Le(v, IntB(r.hi)))
		}
		if loOK && hiOK {
			return v
		}
	}
	bits, signed, _ := intInfo(t)
	m := new(big.Int).Lsh(bigOne, uint(bits))
	if !signed {
		return Mod(v, IntB(m))
	}
	half := IntB(new(big.Int).Rsh(m, 1))
	return Sub(Mod(Add(v, half), IntB(m)), half)
}

func contiguous(mask *big.Int) (lo, n uint, ok bool) {
	if mask.Sign() <= 0 {
		return
	}
	lo = mask.TrailingZeroBits()
	m := new(big.Int).Rsh(mask, lo)
	m1 := new(big.Int).Add(m, bigOne)
	if new(big.Int).And(m, m1).Sign() == 0 {
		return lo, uint(m.BitLen()), true
	}
	return
}

func pow2(n uint) *Term { return IntB(new(big.Int).Lsh(bigOne, n)) }

// andConst computes x & mask for nonnegative mask (x any integer, two's complement).
func andConst(x *Term, mask *big.Int) *Term {
	res := Zero
	m := new(big.Int).Set(mask)
	for m.Sign() != 0 {
		lo := m.TrailingZeroBits()
		n := uint(0)
		for m.Bit(int(lo+n)) == 1 {
			n++
		}
		part := Scale(Mod(Div(x, pow2(lo)), pow2(n)), new(big.Int).Lsh(bigOne, lo))
		res = Add(res, part)
		for i := lo; i < lo+n; i++ {
			m.SetBit(m, int(i), 0)
		}
	}
	return res
}

// alignOf returns k such that 2^k divides t for sure.
func alignOf(t *Term) uint {
	switch t.Op {
	case OConst:
		if t.K.Sign() == 0 {
			return 512
		}
		return t.K.TrailingZeroBits()
	case OLin:
		k := uint(512)
		if t.K.Sign() != 0 {
			k = t.K.TrailingZeroBits()
		}
		for i, c := range t.Coef {
			a := c.TrailingZeroBits() + alignOf(t.Args[i])
			if a < k {
				k = a
			}
		}
		return k
	case OMod:
		if t.Args[1].Op == OConst {
			a := alignOf(t.Args[0])
			if b := t.Args[1].K.TrailingZeroBits(); b < a {
				a = b
			}
			return a
		}
	case OIte:
		a, b := alignOf(t.Args[1]), alignOf(t.Args[2])
		if b < a {
			a = b
		}
		return a
	case OMul:
		k := uint(0)
		for _, x := range t.Args {
			k += alignOf(x)
		}
		return k
	}
	return 0
}

func bitsOf(t *Term) (uint, bool) {
	l, h := Range(t)
	if l == nil || h == nil || l.Sign() < 0 {
		return 0, false
	}
	return uint(h.BitLen()), true
}

func (ex *Exec) bitop(st *State, op token.Token, x, y *Term, t types.Type) *Term {
	bits, signed, _ := intInfo(t)
	if x.isConst() {
		x, y = y, x
	}
	full := new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(bits)), bigOne)
	if y.isConst() {
		c := new(big.Int).And(y.K, full) // unsigned image
		xu := x
		neg := false
		if l, _ := Range(x); l == nil || l.Sign() < 0 {
			neg = true
			xu = Mod(x, IntB(new(big.Int).Add(full, bigOne)))
		}
		if bitRuns(c) > 2 && !(signed && c.Bit(bits-1) == 1) {
			name := map[token.Token]string{token.AND: "band", token.OR: "bor", token.XOR: "bxor"}[op]
			if r := App(name, SInt, xu, IntB(c)); !(signed && neg) {
				return r
			} else {
				return ex.wrap(st, r, t)
			}
		}
		a := andConst(xu, c)
		var r *Term
		switch op {
		case token.AND:
			r = a
		case token.OR:
			r = Sub(Add(xu, IntB(c)), a)
		case token.XOR:
			r = Sub(Add(xu, IntB(c)), Scale(a, big.NewInt(2)))
		}
		if signed && (neg || c.Bit(bits-1) == 1) {
			return ex.wrap(st, r, t)
		}
		return r
	}
	// disjoint bit ranges
	if op != token.AND {
		if bx, ok := bitsOf(x); ok && bx <= alignOf(y) {
			if _, ok := bitsOf(y); ok {
				return Add(x, y)
			}
		}
		if by, ok := bitsOf(y); ok && by <= alignOf(x) {
			if _, ok := bitsOf(x); ok {
				return Add(x, y)
			}
		}
	} else {
		if bx, ok := bitsOf(x); ok && bx <= alignOf(y) {
			return Zero
		}
		if by, ok := bitsOf(y); ok && by <= alignOf(x) {
			return Zero
		}
	}
	if op != token.AND {
		// disjoint because of facts of the path
		for _, q := range [][2]*Term{{x, y}, {y, x}} {
			// two's complement: adding below the lowest set bit is the same for negative values
			if a := alignOf(q[0]); a > 0 && a < 64 {
				lim := new(big.Int).Lsh(bigOne, a)
				if ex.decider(st)(And(Ge0(q[1]), Lt(q[1], IntB(lim)))) {
					return Add(x, y)
				}
			}
		}
	}
	// one-bit operands from comparisons
	if x.Op == OIte && x.Args[1].isConst() && x.Args[2].isConst() {
		return Ite(x.Args[0], ex.bitop(st, op, x.Args[1], y, t), ex.bitop(st, op, x.Args[2], y, t))
	}
	if y.Op == OIte && y.Args[1].isConst() && y.Args[2].isConst() {
		return Ite(y.Args[0], ex.bitop(st, op, x, y.Args[1], t), ex.bitop(st, op, x, y.Args[2], t))
	}
	name := map[token.Token]string{token.AND: "band", token.OR: "bor", token.XOR: "bxor"}[op]
	lx, _ := Range(x)
	ly, _ := Range(y)
	if signed && (lx == nil || lx.Sign() < 0 || ly == nil || ly.Sign() < 0) {
		m := IntB(new(big.Int).Add(full, bigOne))
		return ex.wrap(st, App(name, SInt, Mod(x, m), Mod(y, m)), t)
	}
	return App(name, SInt, x, y)
}

func (ex *Exec) shiftOp(st *State, op token.Token, x, n *Term, t types.Type) *Term {
	bits, _, _ := intInfo(t)
	k, isC := n.Int64()
	if !isC {
		if n.Op == OIte && n.Args[1].isConst() && n.Args[2].isConst() {
			return Ite(n.Args[0], ex.shiftOp(st, op, x, n.Args[1], t), ex.shiftOp(st, op, x, n.Args[2], t))
		}
		// small known range: case split
		if l, h := Range(n); l != nil && h != nil && l.Sign() >= 0 && h.IsInt64() && h.Int64() <= 8 {
			r := ex.shiftOp(st, op, x, IntB(h), t)
			for i := h.Int64() - 1; i >= l.Int64(); i-- {
				r = Ite(Eq(n, Int(i)), ex.shiftOp(st, op, x, Int(i), t), r)
			}
			return r
		}
		p := App("pow2", SInt, n)
		ex.assume(st, Ge(p, One))
		if op == token.SHL {
			bound := Ge(n, Int(int64(bits)))
			return Ite(bound, Zero, ex.wrap(st, Mul(x, p), t))
		}
		lx, _ := Range(x)
		if lx != nil && lx.Sign() >= 0 {
			return Ite(Ge(n, Int(int64(bits))), Zero, Div(x, p))
		}
		return Ite(Ge(n, Int(int64(bits))), Ite(Ge0(x), Zero, Int(-1)), Div(x, p))
	}
	if op == token.SHL {
		if k >= int64(bits) {
			return Zero
		}
		return ex.wrapShl(st, Scale(x, new(big.Int).Lsh(bigOne, uint(k))), t)
	}
	if k >= int64(bits) {
		if ge0(x) {
			return Zero
		}
		k = int64(bits) - 1
	}
	return Div(x, pow2(uint(k)))
}

func (ex *Exec) wrapShl(st *State, v *Term, t types.Type) *Term {
	save := ex.optim
	ex.optim = 0
	r := ex.wrap(st, v, t)
	ex.optim = save
	return r
}

func (ex *Exec) arith(st *State, op token.Token, x, y *Term, t types.Type) *Term {
	switch op {
	case token.ADD:
		return ex.wrap(st, Add(x, y), t)
	case token.SUB:
		return ex.wrap(st, Sub(x, y), t)
	case token.MUL:
		return ex.wrap(st, Mul(x, y), t)
	case token.QUO, token.REM:
		ex.oblige(st, "panic", "division by zero", Ne(y, Zero))
		_, signed, _ := intInfo(t)
		if !signed || (ge0(x) && ge0(y)) || (ex.sess.Implied(st.pc, Ge0(x)) && ex.sess.Implied(st.pc, Ge0(y))) {
			if op == token.QUO {
				return Div(x, y)
			}
			return Mod(x, y)
		}
		// truncated division
		ax, ay := absT(x), absT(y)
		q := Div(ax, ay)
		neg := Not(Eq(Ge0(x), Ge0(y)))
		if op == token.QUO {
			return ex.wrap(st, Ite(neg, Neg(q), q), t)
		}
		m := Mod(ax, ay)
		return Ite(Ge0(x), m, Neg(m))
	case token.AND, token.OR, token.XOR:
		return ex.bitop(st, op, x, y, t)
	case token.AND_NOT:
		bits, signed, _ := intInfo(t)
		full := new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(bits)), bigOne)
		if y.isConst() {
			c := new(big.Int).AndNot(full, new(big.Int).And(y.K, full))
			ct := IntB(c)
			if signed && c.Bit(bits-1) == 1 {
				ct = IntB(new(big.Int).Sub(c, new(big.Int).Add(full, bigOne)))
			}
			return ex.bitop(st, token.AND, x, ct, t)
		}
		return Sub(x, ex.bitop(st, token.AND, x, y, t))
	}
	ex.unsup("integer operator %s", op)
	return nil
}

func absT(x *Term) *Term {
	if ge0(x) {
		return x
	}
	if le0(x) {
		return Neg(x)
	}
	return Ite(Ge0(x), x, Neg(x))
}

// ---- evaluation of SSA operands

func (ex *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return &PtrV{Glob: x, T: x.Type().(*types.Pointer).Elem()}
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Builtin:
		return x
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x && i < len(fr.freev) {
				return fr.freev[i]
			}
		}
		if r, ok := fr.env[v]; ok {
			return r
		}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	ex.unsup("value %s (%T) not evaluated in %s", v.Name(), v, fr.fn)
	return nil
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return ex.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BoolT(constant.BoolVal(c.Value))
	case constant.String:
		return BytesLit([]byte(constant.StringVal(c.Value)))
	case constant.Int:
		b, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		if isFloat(t) {
			return floatConst(c.Value)
		}
		return IntB(b)
	case constant.Float:
		return floatConst(c.Value)
	}
	return OpaqueV{T: t}
}

func floatConst(v constant.Value) Val {
	return App("fconst_"+strings.NewReplacer("/", "d", ".", "p", "-", "m", "+", "").Replace(v.ExactString()), SInt)
}

func (ex *Exec) term(fr *Frame, st *State, v ssa.Value) *Term {
	r := ex.val(fr, st, v)
	t, ok := r.(*Term)
	if !ok {
		ex.unsup("expected scalar for %s, have %T", v, r)
	}
	return t
}

// ---- equality of Go values

func (ex *Exec) eqVal(st *State, a, b Val, t types.Type) *Term {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return Eq(x, y)
		}
	case *SliceV:
		y, ok := b.(*SliceV)
		if ok {
			if y.Nil == True {
				return x.Nil
			}
			if x.Nil == True {
				return y.Nil
			}
		}
	case *PtrV:
		y, ok := b.(*PtrV)
		if ok {
			if x.Ref != nil && y.Ref != nil && x.Sl == nil && y.Sl == nil && x.Arr == nil && y.Arr == nil {
				if y.Ref == Zero || x.Ref == Zero || x.Key == y.Key {
					return Eq(x.Ref, y.Ref)
				}
				return False
			}
			xn := x.Ref == nil
			if xn && y.Ref == Zero {
				return False
			}
			if y.Ref == nil && x.Ref == Zero {
				return False
			}
		}
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if ok {
			return Eq(ex.ifaceHandle(st, x), ex.ifaceHandle(st, y))
		}
	case *FuncV:
		y, ok := b.(*FuncV)
		if ok {
			return Eq(ex.funcHandle(x), ex.funcHandle(y))
		}
	case *StructV:
		y, ok := b.(*StructV)
		if ok {
			var cs []*Term
			u := under(x.T).(*types.Struct)
			for i := range x.F {
				cs = append(cs, ex.eqVal(st, x.F[i], y.F[i], u.Field(i).Type()))
			}
			return And(cs...)
		}
	case *MapV:
		if y, ok := b.(*MapV); ok && (y.Obj == 0 || x.Obj == 0) {
			return BoolT(x.Obj == y.Obj && x.Keys == nil && y.Keys == nil)
		}
	case OpaqueV:
		return Fresh("opaque_eq", SBool)
	}
	if _, ok := b.(OpaqueV); ok {
		return Fresh("opaque_eq", SBool)
	}
	ex.unsup("comparison of %T and %T", a, b)
	return nil
}

// strLess: lexicographic order of strings is left uninterpreted.
func strLess(a, b *Term) *Term { return App("strless", SBool, a, b) }

// ---- block execution

const maxSteps = 400000

func (ex *Exec) runBlock(fr *Frame, st *State, b *ssa.BasicBlock, from int) {
	for i := from; i < len(b.Instrs); i++ {
		ex.steps++
		if ex.steps > maxSteps || ex.steps%64 == 0 && !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
			ex.unsup("too many steps")
		}
		in := b.Instrs[i]
		if p := in.Pos(); p.IsValid() {
			ex.pos = p
		}
		switch x := in.(type) {
		case *ssa.DebugRef:
			if id, ok := identOf(x); ok && !x.IsAddr {
				if v, ok := fr.env[x.X]; ok {
					fr.names[id] = v
				} else if c, ok := x.X.(*ssa.Const); ok {
					fr.names[id] = ex.constVal(c)
				}
			} else if ok && x.IsAddr {
				if v, ok := fr.env[x.X]; ok {
					if p, isP := v.(*PtrV); isP {
						fr.names[id] = &addrOf{p}
					}
				}
			}
		case *ssa.Phi:
			// handled on edges
		case *ssa.If:
			c := ex.term(fr, st, x.Cond)
			t, f := b.Succs[0], b.Succs[1]
			if c != True && c != False {
				d := ex.decider(st)
				if !ex.feasible(st, c) {
					ex.assume(st, Not(c))
					c = False
				} else if !ex.feasible(st, Not(c)) {
					ex.assume(st, c)
					c = True
				}
				_ = d
			}
			if c == True {
				ex.edge(fr, st, b, t)
				return
			}
			if c == False {
				ex.edge(fr, st, b, f)
				return
			}
			st2 := st.clone()
			fr2 := fr.clone()
			ex.assume(st, c)
			ex.edge(fr, st, b, t)
			ex.assume(st2, Not(c))
			ex.edge(fr2, st2, b, f)
			return
		case *ssa.Jump:
			ex.edge(fr, st, b, b.Succs[0])
			return
		case *ssa.Return:
			var res []Val
			for _, r := range x.Results {
				res = append(res, ex.val(fr, st, r))
			}
			ex.doReturn(fr, st, res)
			return
		case *ssa.Panic:
			ex.oblige(st, "panic", "explicit panic", False)
			return
		case *ssa.Call:
			idx := i
			blk := b
			ex.call(fr, st, x, &x.Call, func(st2 *State, res []Val) {
				fr2 := fr.clone()
				switch len(res) {
				case 0:
				case 1:
					fr2.env[x] = res[0]
				default:
					fr2.env[x] = TupleV(res)
				}
				ex.runBlock(fr2, st2, blk, idx+1)
			})
			return
		case *ssa.Defer:
			name := ""
			if f := x.Call.StaticCallee(); f != nil {
				name = funcKey(f)
			}
			if strings.HasPrefix(name, "sync.") || name == "" && x.Call.IsInvoke() {
				ex.assumed["deferred "+calleeName(&x.Call)+" ignored"] = true
				continue
			}
			ex.unsup("defer of %s", calleeName(&x.Call))
		case *ssa.RunDefers:
		case *ssa.Go:
			ex.unsup("go statement")
		default:
			ex.instr(fr, st, in)
		}
	}
}

type addrOf struct{ p *PtrV }

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return typeKey(c.Value.Type()) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return funcKey(f)
	}
	return c.Value.String()
}

func (ex *Exec) doReturn(fr *Frame, st *State, res []Val) {
	fr.k(st, res)
}

// edge moves control from block a to block b.
func (ex *Exec) edge(fr *Frame, st *State, a, b *ssa.BasicBlock) {
	loops := ex.eng.loopsOf(fr.fn)
	if l := loops[b]; l != nil {
		if ac := fr.active[l]; ac != nil && l.blocks[a] {
			// leaving inner loops through the back edge
			for il := range fr.active {
				if il != l && !il.blocks[b] {
					if fr.active[il].noExit {
						return
					}
					delete(fr.active, il)
				}
			}
			ac.onBack(st, fr, a)
			return
		}
	}
	for l, ac := range fr.active {
		if !l.blocks[b] {
			if ac.noExit {
				return
			}
			st.log = ac.log
			delete(fr.active, l)
			if ac.mode == "final" && ac.lr != nil {
				ex.leaveLoop(ac.lr, fr, st)
			}
		}
	}
	if l := loops[b]; l != nil {
		ex.enterLoop(fr, st, l, a)
		return
	}
	ex.phis(fr, st, a, b)
	ex.runBlock(fr, st, b, 0)
}

func predIndex(a, b *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == a {
			return i
		}
	}
	return -1
}

func (ex *Exec) phiVals(fr *Frame, st *State, a, b *ssa.BasicBlock) map[*ssa.Phi]Val {
	idx := predIndex(a, b)
	m := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		m[p] = ex.val(fr, st, p.Edges[idx])
	}
	return m
}

func (ex *Exec) phis(fr *Frame, st *State, a, b *ssa.BasicBlock) {
	for p, v := range ex.phiVals(fr, st, a, b) {
		fr.env[p] = v
		if p.Comment != "" {
			fr.names[p.Comment] = v
		}
	}
}

// ---- function entry

func (ex *Exec) runFunc(fn *ssa.Function, args []Val, freev []Val, st *State, parent *Frame, k func(st *State, res []Val)) {
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, names: map[string]Val{}, parent: parent, active: map[*Loop]*active{}, freev: freev}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	if fr.depth > 24 {
		ex.unsup("inlining too deep at %s", funcKey(fn))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
		fr.names[p.Name()] = args[i]
	}
	saved := ex.cur
	ex.cur = fn
	pos := ex.pos
	fr.k = func(st2 *State, res []Val) {
		ex.cur = saved
		sp := ex.pos
		ex.pos = pos
		k(st2, res)
		ex.pos = sp
		ex.cur = fn
	}
	if len(fn.Blocks) == 0 {
		ex.unsup("function %s has no body", funcKey(fn))
	}
	ex.runBlock(fr, st, fn.Blocks[0], 0)
	ex.cur = saved
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var debug = os.Getenv("GOCV_DEBUG") != ""

func dbg(f string, a ...interface{}) {
	if debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
