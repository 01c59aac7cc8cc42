package main

// Symbolic values and program state.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// SliceV: Obj>0 means a window [Off,Off+Len) of a backing object, otherwise C is the content.
type SliceV struct {
	Nil  *Term
	Obj  int
	C    *Term
	Off  *Term
	Len  *Term
	Cap  *Term // nil when unknown
	Elem types.Type
	HP   *PtrV // heap field the slice was loaded from (writable through it)
}

// PtrV points into the heap (Key of object Ref), to a local cell, or to an element of a slice.
type PtrV struct {
	Ref  *Term
	Key  string
	T    types.Type // pointee
	Cell int
	Sl   *SliceV // element pointer
	Idx  *Term
	Glob *ssa.Global
	Arr  *PtrV // element of an array-typed location
}

type StructV struct {
	T types.Type
	F []Val
}
type TupleV []Val
type IfaceV struct {
	H   *Term // 0 is nil
	Dyn types.Type
	V   Val
}
type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
	H    *Term
}
type MapV struct {
	Keys []Val
	Vals []Val
	T    *types.Map
	Obj  int
	idx  map[*Term]int
}
type OpaqueV struct {
	T types.Type
	H *Term // identity, of a map not known element by element
}

type Obj struct {
	C      *Term
	Elem   types.Type
	Owned  bool
	Note   string // name of the parameter it came from
	Poison string // reading it is an alias error
	Alias  []int  // objects that may share memory with this one
	Escape string
	Grown  []int // results of appends that may share this object's spare capacity
	Exact  bool  // capacity equals length: append always reallocates
}

type State struct {
	heap  map[string]*Term
	objs  map[int]*Obj
	cells map[int]Val
	maps  map[int]*MapV
	pc    []*Term
	alloc *Term
	log   *wlog
}

type wlog struct {
	parent *wlog
	heap   map[string][]*Term
	objs   map[int]bool
	cells  map[int]bool
	maps   map[int]bool
}

func newLog(p *wlog) *wlog {
	return &wlog{parent: p, heap: map[string][]*Term{}, objs: map[int]bool{}, cells: map[int]bool{}, maps: map[int]bool{}}
}
func (l *wlog) whole(key string) {
	for ; l != nil; l = l.parent {
		l.heap[key] = append(l.heap[key], nil)
	}
}
func (l *wlog) wheap(key string, ref *Term) {
	for ; l != nil; l = l.parent {
		l.heap[key] = append(l.heap[key], ref)
	}
}
func (l *wlog) wobj(id int) {
	for ; l != nil; l = l.parent {
		l.objs[id] = true
	}
}
func (l *wlog) wcell(id int) {
	for ; l != nil; l = l.parent {
		l.cells[id] = true
	}
}
func (l *wlog) wmap(id int) {
	for ; l != nil; l = l.parent {
		l.maps[id] = true
	}
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap)), objs: make(map[int]*Obj, len(s.objs)), cells: make(map[int]Val, len(s.cells)), maps: make(map[int]*MapV, len(s.maps)), alloc: s.alloc, log: s.log}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.objs {
		c := *v
		n.objs[k] = &c
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.maps {
		n.maps[k] = v
	}
	n.pc = append(make([]*Term, 0, len(s.pc)+4), s.pc...)
	return n
}

// ---- types

const modPath = "github.com/keyfuse/tokucore/"

func relPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	return strings.TrimPrefix(p.Path(), modPath)
}

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return relPkg(n.Obj().Pkg()) + "." + n.Obj().Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return relPkg(p) })
}

// skey is the heap key of a struct type; a type defined from another struct
// type shares that type's fields.
func skey(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return typeKey(t)
	}
	su, ok := n.Underlying().(*types.Struct)
	if !ok || su.NumFields() == 0 || n.Obj().Pkg() == nil {
		return typeKey(t)
	}
	p := su.Field(0).Pkg()
	if p == nil || p == n.Obj().Pkg() {
		return typeKey(t)
	}
	for _, name := range p.Scope().Names() {
		if tn, ok := p.Scope().Lookup(name).(*types.TypeName); ok && !tn.IsAlias() {
			if u, ok := tn.Type().Underlying().(*types.Struct); ok && u == su {
				return typeKey(tn.Type())
			}
		}
	}
	return typeKey(t)
}

// fieldKey is the heap key of a field.  A leading struct field starts where its
// owner starts: its fields live under its own type's key at the owner's address.
func fieldKey(key string, f *types.Var, i int) string {
	if i == 0 {
		if n, ok := types.Unalias(f.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && !isBigInt(n) {
			if _, ok := n.Underlying().(*types.Struct); ok {
				return skey(n)
			}
		}
	}
	return key + "." + f.Name()
}

func isBigInt(t types.Type) bool { return typeKey(t) == "math/big.Int" }

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func intInfo(t types.Type) (bits int, signed, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return
}

func typeRange(t types.Type) (rng, bool) {
	bits, signed, ok := intInfo(t)
	if !ok {
		return rng{}, false
	}
	if signed {
		h := new(big.Int).Lsh(bigOne, uint(bits-1))
		return rng{new(big.Int).Neg(h), new(big.Int).Sub(h, bigOne)}, true
	}
	h := new(big.Int).Lsh(bigOne, uint(bits))
	return rng{new(big.Int), h.Sub(h, bigOne)}, true
}

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// seqSort gives the sequence sort for element type t.
func seqSort(t types.Type) *Sort {
	if isByte(t) {
		return SeqB
	}
	switch u := under(t).(type) {
	case *types.Slice:
		if isByte(u.Elem()) {
			return SeqS
		}
	case *types.Array:
		if isByte(u.Elem()) {
			return SeqS
		}
	}
	if isString(t) {
		return SeqS
	}
	return SeqI
}

// heapSort is the sort of a heap location of (non-struct) type t.
func heapSort(t types.Type) *Sort {
	if isBool(t) {
		return SBool
	}
	if isString(t) {
		return SeqB
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return seqSort(u.Elem())
	case *types.Array:
		return seqSort(u.Elem())
	}
	return SInt
}

var arrRange = map[string]rng{}
var arrBound = map[string]*Term{} // references stored in this heap array are below the bound

func (ex *Exec) heapVar(key string, t types.Type, s *Sort, bound *Term, name string) *Term {
	v := Var(name, ArrOf(s))
	tmu.Lock()
	if s == SInt && t != nil {
		if r, ok := typeRange(t); ok {
			arrRange[name] = r
		} else {
			arrRange[name] = rng{new(big.Int), nil}
			switch under(t).(type) {
			case *types.Pointer, *types.Interface, *types.Signature, *types.Map:
				if bound != nil {
					arrBound[name] = bound
				}
			}
			if isBigInt(t) {
				delete(arrRange, name)
			}
		}
	}
	if s == SeqI && t != nil {
		var el types.Type
		switch u := under(t).(type) {
		case *types.Slice:
			el = u.Elem()
		case *types.Array:
			el = u.Elem()
		}
		if el != nil {
			if r, ok := typeRange(el); ok {
				arrRange[name] = r
			} else {
				arrRange[name] = rng{new(big.Int), nil}
				if bound != nil {
					arrBound[name] = bound
				}
			}
		}
	}
	tmu.Unlock()
	return v
}

func baseVar(a *Term) *Term {
	for {
		switch a.Op {
		case OSto, OArrTab:
			a = a.Args[0]
		case OIte:
			a = a.Args[1]
		case OVar:
			return a
		default:
			return nil
		}
	}
}

func elemRangeOf(s *Term) (rng, bool) {
	switch s.Op {
	case OVar:
		tmu.Lock()
		r, ok := arrRange[s.Name]
		tmu.Unlock()
		return r, ok
	case OSel:
		if b := baseVar(s.Args[0]); b != nil {
			tmu.Lock()
			r, ok := arrRange[b.Name]
			tmu.Unlock()
			return r, ok
		}
	case OSub, OUpd:
		return elemRangeOf(s.Args[0])
	case OIte:
		return elemRangeOf(s.Args[1])
	case OCat:
		return elemRangeOf(s.Args[0])
	}
	return rng{}, false
}

func (ex *Exec) fail(st *State, kind, msg string) {
	ex.oblige(st, kind, msg, False)
}

type unsupported struct{ msg string }

func (ex *Exec) unsup(format string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}
