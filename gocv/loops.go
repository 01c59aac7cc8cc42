package main

// Loops: unrolling, and inductive invariants (closed forms found by recurrence solving and
// then checked, plus invariants written in the contracts).

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type comp struct {
	name   string
	v      *Term
	entry  *Term
	backs  []*Term
	back   *Term
	closed *Term
	failed bool
}

// shape decomposes a value into term components.
type shape struct {
	build   func(st *State, get func(*comp) *Term) Val
	extract func(st *State, v Val, out map[*comp]*Term) bool
	comps   []*comp
}

type loopRun struct {
	ex      *Exec
	fr      *Frame
	st      *State
	l       *Loop
	from    *ssa.BasicBlock
	spec    *LoopSpec
	ord     int
	n0      int
	K       *Term
	phis    []*ssa.Phi
	entryV  map[*ssa.Phi]Val
	pshape  map[*ssa.Phi]*shape
	cells   map[int]*shape
	objs    map[int]*comp
	heapR   map[string]map[*Term]*comp // key -> ref -> component
	heapW   map[string]*comp           // whole-array components
	frameW  map[string]*Term           // frame bound for whole arrays that only gain fresh objects
	alloc   *comp
	modeC   map[*ssa.Phi]bool // slice phi in content mode
	unown   map[string]bool
	maps    bool
	start0  int
	lenFree map[int]bool  // objects whose length an iteration may change
	headC   map[int]*Term // object contents at the last head
	all     []*comp
	cond    *Term // condition of a completed iteration, over K
}

func freshIdx(n string) int {
	i := strings.LastIndexByte(n, '!')
	if i < 0 {
		return 0
	}
	k, err := strconv.Atoi(n[i+1:])
	if err != nil {
		return 0
	}
	return k
}

func curFresh() int {
	tmu.Lock()
	defer tmu.Unlock()
	return freshN
}

func (lr *loopRun) isClosed(t *Term) bool {
	return !occurs(t, func(x *Term) bool {
		return x.Op == OVar && x != lr.K && freshIdx(x.Name) > lr.n0
	})
}

func (ex *Exec) loopNumber(fn *ssa.Function, l *Loop) int {
	// ordinal of the loop within its function, in source order of headers
	n := 1
	for _, b := range fn.Blocks {
		if b == l.head {
			return n
		}
		if ex.eng.loopsOf(fn)[b] != nil {
			n++
		}
	}
	return n
}

func (ex *Exec) loopSpec(fn *ssa.Function, l *Loop) *LoopSpec {
	n := ex.loopNumber(fn, l)
	if ex.ct != nil && funcKey(fn) == ex.ct.Key {
		if s := ex.ct.Loops[n]; s != nil {
			return s
		}
	}
	// invariants belonging to an inlined callee's own contract
	if c := ex.eng.contracts[funcKey(fn)]; c != nil {
		if s := c.Loops[n]; s != nil {
			return s
		}
	}
	// an extracted helper without a contract: offer the contract's loops by order of appearance
	return nil
}

func (ex *Exec) enterLoop(fr *Frame, st *State, l *Loop, from *ssa.BasicBlock) {
	spec := ex.loopSpec(fr.fn, l)
	entry := ex.phiVals(fr, st, from, l.head)
	limit := 300
	if ex.initMode {
		limit = 50000
	}
	if spec != nil && spec.Unroll > 0 {
		limit = spec.Unroll
	}
	if spec == nil || !spec.Symbolic {
		if ex.headerConst(fr, st, l, entry) != nil || spec != nil && spec.Unroll > 0 {
			ex.unroll(fr, st, l, entry, limit, 0)
			return
		}
	}
	if ex.initMode {
		ex.unsup("loop with unknown bound in %s", funcKey(fr.fn))
	}
	lr := &loopRun{ex: ex, fr: fr, st: st, l: l, from: from, spec: spec, ord: ex.loopNumber(fr.fn, l), entryV: entry, modeC: map[*ssa.Phi]bool{}, unown: map[string]bool{}}
	lr.run()
}

// headerConst evaluates the header's branch condition when it is decided by the entry values alone.
func (ex *Exec) headerConst(fr *Frame, st *State, l *Loop, entry map[*ssa.Phi]Val) *Term {
	last, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	fr2 := fr.clone()
	for p, v := range entry {
		fr2.env[p] = v
	}
	var res *Term
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupported); !ok {
					panic(r)
				}
				res = nil
			}
		}()
		ex.suppress++
		defer func() { ex.suppress-- }()
		st2 := st.clone()
		for _, in := range l.head.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.If:
			case *ssa.BinOp, *ssa.Convert, *ssa.Extract, *ssa.ChangeType:
				ex.instr(fr2, st2, in)
			case *ssa.Next:
				if x.IsString {
					it := ex.val(fr2, st2, x.Iter).(*rangeIter)
					if s, ok := it.src.(*Term); !ok || s.Op != OLit {
						return
					}
				}
				ex.instr(fr2, st2, in)
			case *ssa.UnOp:
				ex.instr(fr2, st2, in)
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					ex.call(fr2, st2, x, &x.Call, func(_ *State, r []Val) { fr2.env[x] = r[0] })
				} else {
					return
				}
			default:
				return
			}
		}
		c := ex.term(fr2, st2, last.Cond)
		if c == True || c == False {
			res = c
		}
	}()
	return res
}

func (ex *Exec) unroll(fr *Frame, st *State, l *Loop, vals map[*ssa.Phi]Val, limit, n int) {
	if n > limit {
		if sp := ex.loopSpec(fr.fn, l); sp != nil && sp.Unroll > 0 {
			// bounded by the contract: reaching the bound must be impossible
			ex.oblige(st, "unroll", fmt.Sprintf("loop %d runs at most %d times", ex.loopNumber(fr.fn, l), limit), False)
			return
		}
		ex.unsup("loop in %s unrolled more than %d times", funcKey(fr.fn), limit)
	}
	fr = fr.clone()
	for p, v := range vals {
		fr.env[p] = v
		if p.Comment != "" {
			fr.names[p.Comment] = v
		}
	}
	prevLog := st.log
	ac := &active{mode: "unroll", log: prevLog}
	ac.onBack = func(st2 *State, fr2 *Frame, from *ssa.BasicBlock) {
		next := ex.phiVals(fr2, st2, from, l.head)
		delete(fr2.active, l)
		sp := ex.loopSpec(fr.fn, l)
		if sp != nil && sp.Unroll > 0 || ex.headerConst(fr2, st2, l, next) != nil {
			ex.unroll(fr2, st2, l, next, limit, n+1)
			return
		}
		ex.unsup("loop %d of %s is decided for %d iterations only", ex.loopNumber(fr.fn, l), funcKey(fr.fn), n+1)
	}
	fr.active[l] = ac
	ex.runBlock(fr, st, l.head, firstNonPhi(l.head))
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

// ---- shapes

func (lr *loopRun) newComp(name string, entry *Term) *comp {
	var v *Term
	n := freshName("L_" + name)
	if entry.Sort == SInt {
		v = Var(n, SInt)
	} else {
		v = Var(n, entry.Sort)
		if entry.Sort == SeqI {
			if r, ok := elemRangeOf(entry); ok {
				tmu.Lock()
				arrRange[n] = r
				tmu.Unlock()
			}
		}
		if entry.Sort.Arr {
			if b := baseVar(entry); b != nil {
				tmu.Lock()
				if r, ok := arrRange[b.Name]; ok {
					arrRange[n] = r
				}
				if r, ok := arrBound[b.Name]; ok {
					_ = r // references stored in the loop may be younger
				}
				tmu.Unlock()
			}
		}
	}
	c := &comp{name: name, v: v, entry: entry}
	lr.all = append(lr.all, c)
	return c
}

func setRange(v *Term, t types.Type) {
	if r, ok := typeRange(t); ok && v.Sort == SInt {
		tmu.Lock()
		varRange[v.Name] = r
		tmu.Unlock()
	}
}

func (lr *loopRun) shapeOf(name string, v Val, t types.Type, content bool) *shape {
	ex := lr.ex
	switch x := v.(type) {
	case *Term:
		c := lr.newComp(name, x)
		if t != nil {
			setRange(c.v, t)
		}
		return &shape{comps: []*comp{c},
			build: func(st *State, get func(*comp) *Term) Val { return get(c) },
			extract: func(st *State, v Val, out map[*comp]*Term) bool {
				t, ok := v.(*Term)
				if ok {
					out[c] = t
				}
				return ok
			}}
	case *SliceV:
		if !content {
			off, ln := lr.newComp(name+".off", x.Off), lr.newComp(name+".len", x.Len)
			setRange(ln.v, types.Typ[types.Int])
			setRange(off.v, types.Typ[types.Int])
			return &shape{comps: []*comp{off, ln},
				build: func(st *State, get func(*comp) *Term) Val {
					n := *x
					n.Off, n.Len = get(off), get(ln)
					if n.Off != x.Off || n.Len != x.Len {
						if x.Cap != nil {
							n.Cap = Sub(Add(x.Cap, x.Off), n.Off)
						}
						if n.Nil != False {
							n.Nil = Fresh("nil", SBool)
						}
					}
					return &n
				},
				extract: func(st *State, v Val, out map[*comp]*Term) bool {
					s, ok := v.(*SliceV)
					if !ok || s.Obj != x.Obj || s.Obj == 0 && s.C != x.C {
						return false
					}
					if x.Nil != False && s.Nil != x.Nil && s.Nil != False {
						return false
					}
					out[off], out[ln] = s.Off, s.Len
					return true
				}}
		}
		c := lr.newComp(name, ex.contentRaw(lr.st, x))
		nl := lr.newComp(name+".nil", x.Nil)
		owned := x.Obj > 0 && lr.st.objs[x.Obj] != nil && lr.st.objs[x.Obj].Owned || x.Nil == True
		key := name
		elem := x.Elem
		return &shape{comps: []*comp{c, nl},
			build: func(st *State, get func(*comp) *Term) Val {
				ct := get(c)
				if owned && !lr.unown[key] {
					id := ex.newObj(st, ct, elem, true, "")
					return &SliceV{Nil: get(nl), Obj: id, Off: Zero, Len: Len(ct), Elem: elem}
				}
				return pureSlice(ct, get(nl), elem)
			},
			extract: func(st *State, v Val, out map[*comp]*Term) bool {
				s, ok := v.(*SliceV)
				if !ok {
					return false
				}
				own := s.Obj > 0 && st.objs[s.Obj] != nil && st.objs[s.Obj].Owned || s.Nil == True
				if !own && owned {
					lr.unown[key] = true
				}
				out[c], out[nl] = ex.contentRaw(st, s), s.Nil
				return true
			}}
	case *PtrV:
		if x.Ref != nil && x.Cell == 0 && x.Sl == nil && x.Arr == nil && x.Glob == nil {
			c := lr.newComp(name, x.Ref)
			tmu.Lock()
			varRange[c.v.Name] = rng{new(big.Int), nil}
			tmu.Unlock()
			return &shape{comps: []*comp{c},
				build: func(st *State, get func(*comp) *Term) Val {
					n := *x
					n.Ref = get(c)
					return &n
				},
				extract: func(st *State, v Val, out map[*comp]*Term) bool {
					p, ok := v.(*PtrV)
					if !ok || p.Ref == nil || p.Sl != nil || p.Arr != nil || p.Glob != nil || p.Cell != 0 {
						return false
					}
					if p.Key != x.Key {
						if x.Ref == Zero {
							x = &PtrV{Ref: Zero, Key: p.Key, T: p.T}
						} else if p.Ref != Zero {
							return false
						}
					}
					out[c] = p.Ref
					return true
				}}
		}
		return &shape{
			build: func(st *State, get func(*comp) *Term) Val { return x },
			extract: func(st *State, v Val, out map[*comp]*Term) bool {
				p, ok := v.(*PtrV)
				if !ok {
					return false
				}
				if p.Sl != nil && x.Sl != nil {
					return p.Idx == x.Idx && p.Sl.Obj == x.Sl.Obj && p.Sl.Off == x.Sl.Off
				}
				return p.Cell == x.Cell && p.Glob == x.Glob && p.Arr == x.Arr && p.Sl == x.Sl
			}}
	case *IfaceV:
		h := ex.ifaceHandle(lr.st, x)
		c := lr.newComp(name, h)
		tmu.Lock()
		varRange[c.v.Name] = rng{new(big.Int), nil}
		tmu.Unlock()
		return &shape{comps: []*comp{c},
			build: func(st *State, get func(*comp) *Term) Val {
				t := get(c)
				if d, ok := ex.eng.regIface(t); ok {
					return d
				}
				return &IfaceV{H: t}
			},
			extract: func(st *State, v Val, out map[*comp]*Term) bool {
				i, ok := v.(*IfaceV)
				if ok {
					out[c] = ex.ifaceHandle(st, i)
				}
				return ok
			}}
	case *FuncV:
		return &shape{
			build: func(st *State, get func(*comp) *Term) Val { return x },
			extract: func(st *State, v Val, out map[*comp]*Term) bool {
				f, ok := v.(*FuncV)
				return ok && f.Fn == x.Fn && f.H == x.H
			},
		}
	case *StructV:
		sh := &shape{}
		var fs []*shape
		u := under(x.T).(*types.Struct)
		for i, f := range x.F {
			s := lr.shapeOf(name+"."+u.Field(i).Name(), f, u.Field(i).Type(), content)
			fs = append(fs, s)
			sh.comps = append(sh.comps, s.comps...)
		}
		sh.build = func(st *State, get func(*comp) *Term) Val {
			n := &StructV{T: x.T}
			for _, s := range fs {
				n.F = append(n.F, s.build(st, get))
			}
			return n
		}
		sh.extract = func(st *State, v Val, out map[*comp]*Term) bool {
			y, ok := v.(*StructV)
			if !ok {
				return false
			}
			for i, s := range fs {
				if !s.extract(st, y.F[i], out) {
					return false
				}
			}
			return true
		}
		return sh
	}
	return &shape{
		build:   func(st *State, get func(*comp) *Term) Val { return v },
		extract: func(st *State, w Val, out map[*comp]*Term) bool { return true },
	}
}

// ---- the run

func (lr *loopRun) setup(ws *wlog) {
	ex := lr.ex
	lr.all = nil
	lr.n0 = curFresh()
	lr.K = VarR(freshName("iter"), new(big.Int), new(big.Int).Lsh(bigOne, 62))
	lr.pshape = map[*ssa.Phi]*shape{}
	lr.phis = nil
	for _, in := range lr.l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		lr.phis = append(lr.phis, p)
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		lr.pshape[p] = lr.shapeOf(nm, lr.entryV[p], p.Type(), lr.modeC[p])
	}
	lr.cells = map[int]*shape{}
	lr.objs = map[int]*comp{}
	lr.heapR = map[string]map[*Term]*comp{}
	lr.heapW = map[string]*comp{}
	lr.frameW = map[string]*Term{}
	lr.alloc = lr.newComp("alloc", lr.st.alloc)
	tmu.Lock()
	varRange[lr.alloc.v.Name] = rng{big.NewInt(1000000), nil}
	tmu.Unlock()
	if ws == nil {
		return
	}
	for id := range ws.cells {
		if v, ok := lr.st.cells[id]; ok {
			lr.cells[id] = lr.shapeOf(fmt.Sprintf("cell%d", id), v, nil, true)
		}
	}
	for id := range ws.objs {
		if o, ok := lr.st.objs[id]; ok {
			lr.objs[id] = lr.newComp(fmt.Sprintf("obj%d", id), o.C)
		}
	}
	for key, refs := range ws.heap {
		arr := lr.st.heap[key]
		if arr == nil {
			arr = ex.heapArrByKey(lr.st, key)
			if arr == nil {
				ex.unsup("loop writes unknown heap location %s", key)
			}
		}
		inv := true
		for _, r := range refs {
			if r == nil || !lr.isClosedBase(r) {
				inv = false
			}
		}
		if inv {
			lr.heapR[key] = map[*Term]*comp{}
			for _, r := range refs {
				if lr.heapR[key][r] == nil {
					c := lr.newComp("at_"+key, Sel(arr, r, ex.decider(lr.st)))
					if arr.Sort.Elem == SInt {
						if b := baseVar(arr); b != nil {
							tmu.Lock()
							if rr, ok := arrRange[b.Name]; ok {
								varRange[c.v.Name] = rr
							}
							tmu.Unlock()
						}
					}
					lr.heapR[key][r] = c
				}
			}
		} else {
			lr.heapW[key] = lr.newComp("heap_"+key, arr)
		}
	}
}

func (lr *loopRun) isClosedBase(t *Term) bool {
	return !occurs(t, func(x *Term) bool { return x.Op == OVar && freshIdx(x.Name) > lr.base0() })
}

func (lr *loopRun) base0() int { return lr.start0 }

func (ex *Exec) heapArrByKey(st *State, key string) *Term {
	if key == "big.$v" {
		return ex.heapArr(st, key, nil, SInt)
	}
	if key == "hash.$data" {
		return ex.heapArr(st, key, nil, SeqB)
	}
	if key == "rand.$n" {
		return ex.heapArr(st, key, types.Typ[types.Int], SInt)
	}
	k := strings.TrimSuffix(key, "#nil")
	t := ex.eng.keyType(k)
	if t == nil {
		return nil
	}
	ex.touch(st, k, t)
	return st.heap[key]
}

func (lr *loopRun) head(get func(*comp) *Term) (*Frame, *State) {
	st := lr.st.clone()
	fr := lr.fr.clone()
	for _, p := range lr.phis {
		v := lr.pshape[p].build(st, get)
		fr.env[p] = v
		if p.Comment != "" {
			fr.names[p.Comment] = v
		}
	}
	fr.names[fmt.Sprintf("iter%d", lr.ord)] = lr.K
	for id, s := range lr.cells {
		st.cells[id] = s.build(st, get)
	}
	lr.headC = map[int]*Term{}
	for id, c := range lr.objs {
		v := get(c)
		lr.headC[id] = v
		st.objs[id].C = v
		if !lr.lenFree[id] && v.Sort.Seq {
			lr.ex.assume(st, Eq(Len(v), Len(lr.st.objs[id].C)))
		}
	}
	for key, refs := range lr.heapR {
		a := lr.st.heap[key]
		for r, c := range refs {
			a = Sto(a, r, get(c))
		}
		st.heap[key] = a
	}
	for key, c := range lr.heapW {
		st.heap[key] = get(c)
	}
	st.alloc = get(lr.alloc)
	return fr, st
}

func (lr *loopRun) extract(st *State, fr *Frame, from *ssa.BasicBlock) (map[*comp]*Term, string) {
	out := map[*comp]*Term{}
	next := lr.ex.phiVals(fr, st, from, lr.l.head)
	for _, p := range lr.phis {
		if !lr.pshape[p].extract(st, next[p], out) {
			if _, ok := next[p].(*SliceV); ok && !lr.modeC[p] {
				lr.modeC[p] = true
				return nil, "retry"
			}
			return nil, "loop variable " + p.Comment + " changes shape"
		}
	}
	for id, s := range lr.cells {
		if !s.extract(st, st.cells[id], out) {
			return nil, "cell changes shape"
		}
	}
	for id, c := range lr.objs {
		out[c] = st.objs[id].C
		if !lr.lenFree[id] && out[c].Sort.Seq && Len(out[c]) != Len(lr.headC[id]) {
			if lr.lenFree == nil {
				lr.lenFree = map[int]bool{}
			}
			lr.lenFree[id] = true
			return nil, "retry"
		}
	}
	for key, refs := range lr.heapR {
		for r, c := range refs {
			out[c] = Sel(st.heap[key], r, lr.ex.decider(st))
		}
	}
	for key, c := range lr.heapW {
		out[c] = st.heap[key]
	}
	out[lr.alloc] = st.alloc
	return out, ""
}

type backState struct {
	vals map[*comp]*Term
	pc   []*Term
	st   *State
	fr   *Frame
}

// pass runs the body once from the given head.
func (lr *loopRun) pass(get func(*comp) *Term, assume []*Term, mode string) (backs []*backState, log *wlog, headPC []*Term, msg string) {
	ex := lr.ex
	fr, st := lr.head(get)
	for _, a := range assume {
		ex.assume(st, a)
	}
	headPC = append([]*Term{}, st.pc...)
	log = newLog(nil)
	st.log = log
	ac := &active{mode: mode, noExit: true, log: lr.st.log}
	ac.onBack = func(st2 *State, fr2 *Frame, from *ssa.BasicBlock) {
		vals, m := lr.extract(st2, fr2, from)
		if m != "" {
			if msg == "" || m == "retry" {
				msg = m
			}
			return
		}
		backs = append(backs, &backState{vals: vals, pc: append([]*Term{}, st2.pc...), st: st2, fr: fr2})
	}
	// enclosing loops must not see this pass
	for l := range fr.active {
		_ = l
	}
	saved := fr.active
	fr.active = map[*Loop]*active{}
	for l, a := range saved {
		na := *a
		na.noExit = true
		na.onBack = func(*State, *Frame, *ssa.BasicBlock) {}
		fr.active[l] = &na
	}
	fr.active[lr.l] = ac
	fr.k = func(*State, []Val) {}
	ex.suppress++
	savedPos, savedCur := ex.pos, ex.cur
	func() {
		defer func() { ex.suppress--; ex.pos, ex.cur = savedPos, savedCur }()
		ex.runBlock(fr, st, lr.l.head, firstNonPhi(lr.l.head))
	}()
	return
}

func (lr *loopRun) pathCond(headPC []*Term, bs []*backState) []*Term {
	base := map[*Term]bool{}
	for _, p := range headPC {
		base[p] = true
	}
	var ext [][]*Term
	count := map[*Term]int{}
	for _, b := range bs {
		var e []*Term
		for _, p := range b.pc {
			if !base[p] {
				e = append(e, p)
				count[p]++
			}
		}
		ext = append(ext, e)
	}
	var out []*Term
	for _, e := range ext {
		var d []*Term
		for _, p := range e {
			if count[p] < len(bs) {
				d = append(d, p)
			}
		}
		out = append(out, And(d...))
	}
	return out
}

func (lr *loopRun) run() {
	ex := lr.ex
	lr.start0 = curFresh()
	t0 := time.Now()
	// 1. which locations change
	var ws *wlog
	var backs []*backState
	var headPC []*Term
	for round := 0; ; round++ {
		if round > 14 {
			ex.unsup("loop %d of %s: write set does not stabilise", lr.ord, funcKey(lr.fr.fn))
		}
		lr.setup(ws)
		un := len(lr.unown)
		ex.optim++
		var log *wlog
		var msg string
		func() {
			defer func() { ex.optim-- }()
			backs, log, headPC, msg = lr.pass(func(c *comp) *Term { return c.v }, []*Term{Ge(lr.alloc.v, lr.st.alloc)}, "discover")
		}()
		if msg == "retry" {
			continue
		}
		if msg != "" {
			ex.unsup("loop %d of %s: %s", lr.ord, funcKey(lr.fr.fn), msg)
		}
		if len(lr.unown) != un {
			continue
		}
		grown := false
		if ws == nil {
			ws = newLog(nil)
		}
		for k, rs := range log.heap {
			seen := map[*Term]bool{}
			hasNil := false
			_, known := ws.heap[k]
			for _, r := range ws.heap[k] {
				if r == nil {
					hasNil = true
				} else {
					seen[r] = true
				}
			}
			if hasNil {
				continue
			}
			if !known {
				ws.heap[k] = nil
				grown = true
			}
			for _, r := range rs {
				if r != nil && !lr.isClosedBase(r) {
					r = nil
				}
				if r == nil {
					if !hasNil {
						ws.heap[k] = append(ws.heap[k], nil)
						hasNil = true
						grown = true
					}
					continue
				}
				if !seen[r] {
					seen[r] = true
					ws.heap[k] = append(ws.heap[k], r)
					grown = true
				}
			}
		}
		for id := range log.objs {
			if lr.st.objs[id] != nil && !ws.objs[id] {
				ws.objs[id] = true
				grown = true
			}
		}
		for id := range log.cells {
			if _, ok := lr.st.cells[id]; ok && !ws.cells[id] {
				ws.cells[id] = true
				grown = true
			}
		}
		for id := range log.maps {
			if lr.st.maps[id] != nil {
				ex.unsup("loop %d of %s writes a map", lr.ord, funcKey(lr.fr.fn))
			}
		}
		if !grown {
			break
		}
	}
	for k, refs := range ws.heap { // keep the log of the enclosing loop complete
		for _, r := range refs {
			if r == nil {
				lr.st.log.whole(k)
			} else {
				lr.st.log.wheap(k, r)
			}
		}
	}
	for id := range ws.objs {
		lr.st.log.wobj(id)
	}
	for id := range ws.cells {
		lr.st.log.wcell(id)
	}
	// 2. merge the back edges and solve
	if len(backs) > 0 {
		conds := lr.pathCond(headPC, backs)
		for _, c := range lr.all {
			n := len(backs)
			v := backs[n-1].vals[c]
			for i := n - 2; i >= 0; i-- {
				w := backs[i].vals[c]
				if w == nil || v == nil {
					v = nil
					break
				}
				if w != v {
					v = Ite(conds[i], w, v)
				}
			}
			c.back = v
		}
		if lr.spec != nil {
			for _, h := range lr.spec.Havoc {
				for _, c := range lr.all {
					if c.name == h {
						c.failed = true
					}
				}
			}
		}
		lr.solve()
	}
	dbg("loop %d of %s: %d back edges, discovered in %.1fs", lr.ord, funcKey(lr.fr.fn), len(backs), time.Since(t0).Seconds())
	// 3. check the closed forms by induction
	for round := 0; ; round++ {
		if round > 12 {
			ex.unsup("loop %d of %s: closed forms do not stabilise", lr.ord, funcKey(lr.fr.fn))
		}
		for _, c := range lr.all {
			if c.closed == nil {
				continue
			}
			z := substVars(c.closed, map[*Term]*Term{lr.K: Zero}, ex.decider(lr.st))
			if z != c.entry && !ex.sess.Implied(lr.st.pc, Eq(z, c.entry)) {
				if r := ex.tryProve(lr.st.pc, Eq(z, c.entry), 2*time.Second); !r {
					dbg("  base of %s fails: %s  vs entry %s", c.name, z, c.entry)
					c.closed, c.failed = nil, true
				}
			}
		}
		get, pre := lr.headAssumptions()
		bs, _, hpc, msg := lr.pass(get, pre, "check")
		if msg == "retry" {
			lr.setupAgain()
			lr.run()
			return
		}
		if msg != "" {
			ex.unsup("loop %d of %s: %s", lr.ord, funcKey(lr.fr.fn), msg)
		}
		bad := false
		for _, c := range lr.all {
			if c.closed == nil {
				continue
			}
			next := substVars(c.closed, map[*Term]*Term{lr.K: AddK(lr.K, 1)}, nil)
			for _, b := range bs {
				v := b.vals[c]
				if v == next {
					continue
				}
				n2 := substVars(c.closed, map[*Term]*Term{lr.K: AddK(lr.K, 1)}, ex.decider(b.st))
				if v == n2 || ex.sess.Implied(b.pc, Eq(v, n2)) {
					continue
				}
				if ex.tryProve(b.pc, Eq(v, next), 3*time.Second) {
					continue
				}
				dbg("  closed form of %s not inductive:\n    next %s\n    got  %s", c.name, next, v)
				c.closed, c.failed = nil, true
				bad = true
				break
			}
		}
		if !bad {
			// condition under which an iteration completes
			lr.cond = True
			if len(bs) > 0 {
				base := map[*Term]bool{}
				for _, p := range hpc {
					base[p] = true
				}
				var alts []*Term
				for _, b := range bs {
					var cs []*Term
					for _, p := range b.pc {
						if !base[p] && lr.isClosed(p) {
							cs = append(cs, p)
						}
					}
					alts = append(alts, And(cs...))
				}
				lr.cond = Or(alts...)
			} else {
				lr.cond = False
			}
			break
		}
		// dependants of a failed component must be solved again
		for _, c := range lr.all {
			if !c.failed {
				c.closed = nil
			}
		}
		lr.solve()
	}
	if debug {
		for _, c := range lr.all {
			if c.closed != nil && c.closed == c.entry {
				continue
			}
			dbg("  %s = %v   (back %v)", c.name, c.closed, c.back)
		}
		dbg("  iteration condition: %s", lr.cond)
	}
	// 4. the real pass
	ex.establish(lr, lr.st, lr.fr, nil)
	get, pre := lr.headAssumptions()
	fr, st := lr.head(get)
	for _, a := range pre {
		ex.assume(st, a)
	}
	ac := &active{mode: "final", log: lr.st.log}
	ac.lr = lr
	ac.onBack = func(st2 *State, fr2 *Frame, from *ssa.BasicBlock) {
		if lr.spec == nil || len(lr.spec.Invs) == 0 {
			return
		}
		next := ex.phiVals(fr2, st2, from, lr.l.head)
		f3 := fr2.clone()
		for p, v := range next {
			f3.env[p] = v
			if p.Comment != "" {
				f3.names[p.Comment] = v
			}
		}
		ex.preserve(lr, st2, f3)
	}
	fr.active[lr.l] = ac
	st.log = newLog(lr.st.log)
	ex.runBlock(fr, st, lr.l.head, firstNonPhi(lr.l.head))
}

func (lr *loopRun) setupAgain() {}

func (ex *Exec) tryProve(pc []*Term, goal *Term, d time.Duration) bool {
	if goal == True {
		return true
	}
	p := NewPrinter()
	if ex.ct != nil {
		p.fuel = ex.ct.Unfold
	}
	t0 := time.Now()
	scr := p.Script(pc, goal, ex.eng.lemmaAxiomsBefore(p, append(append([]*Term{}, pc...), goal), ex.eng.scopeOf(ex.ct)))
	r := runSolver(bgctx, solvers[0], scr, d)
	if os.Getenv("GOCV_SLOW") != "" && time.Since(t0) > time.Second {
		dbg("  tryProve %s in %.1fs: %s", r.status, time.Since(t0).Seconds(), goal)
	}
	return r.status == "unsat"
}

// headAssumptions: values of components at the start of iteration K and what may be assumed there.
func (lr *loopRun) headAssumptions() (func(*comp) *Term, []*Term) {
	ex := lr.ex
	bind := map[*Term]*Term{}
	get := func(c *comp) *Term {
		if c.closed != nil {
			return c.closed
		}
		if b := bind[c.v]; b != nil {
			return b
		}
		return c.v
	}
	var pre []*Term
	pre = append(pre, Ge0(lr.K))
	if lr.cond != nil && lr.cond != True {
		body := abstract(lr.cond, lr.K)
		if body.maxBV > 0 || lr.cond == False {
			pre = append(pre, Forall(Zero, lr.K, body))
		} else {
			pre = append(pre, Implies(Gt(lr.K, Zero), lr.cond))
		}
		prev := substVars(lr.cond, map[*Term]*Term{lr.K: AddK(lr.K, -1)}, nil)
		pre = append(pre, Implies(Gt(lr.K, Zero), prev))
	}
	if lr.alloc.closed == nil {
		pre = append(pre, Ge(lr.alloc.v, lr.st.alloc))
	}
	for key, c := range lr.heapW {
		if c.closed == nil && lr.onlyFresh(key, c) {
			b := Eq(Sel(c.v, BV(0, SInt), nil), Sel(c.entry, BV(0, SInt), nil))
			pre = append(pre, Forall(Zero, lr.st.alloc, b))
		}
	}
	if lr.spec != nil && len(lr.spec.Invs) > 0 {
		// invariants of the form X == e define X
		for round := 0; round < 4; round++ {
			fr, st := lr.head(get)
			nb := false
			fset := map[*Term]bool{}
			for _, c := range lr.all {
				if c.closed == nil && bind[c.v] == nil {
					fset[c.v] = true
				}
			}
			for _, inv := range lr.spec.Invs {
				t := ex.evalInv(lr, st, fr, inv)
				var cs []*Term
				if t.Op == OAnd {
					cs = t.Args
				} else {
					cs = []*Term{t}
				}
				for _, cj := range cs {
					if v, d := solveFor(cj, fset); v != nil {
						m := map[*Term]*Term{v: d}
						for x, y := range bind {
							bind[x] = substVars(y, m, nil)
						}
						bind[v] = d
						nb = true
						break
					}
				}
				if nb {
					break
				}
			}
			if !nb {
				break
			}
		}
		fr, st := lr.head(get)
		for _, inv := range lr.spec.Invs {
			t := ex.evalInv(lr, st, fr, inv)
			pre = append(pre, t)
		}
		if lr.spec.Mod != nil {
			if m, ok := ex.evalInv(lr, st, fr, *lr.spec.Mod).Int64(); ok && m > 1 && m <= 64 {
				ex.mods = append(ex.mods, modSplit{lr.K, m, lr.spec.ModAll})
			}
		}
		for _, u := range lr.spec.Inst {
			env := &specEnv{ex: ex, st: st, old: ex.old, vars: ex.loopVars(lr.K), fn: fr.fn}
			env.names = func(n string) (SV, bool) { return ex.progVar(fr, st, n) }
			pre = append(pre, ex.instEval(env, u))
		}
		for _, p := range st.pc {
			found := false
			for _, q := range lr.st.pc {
				if p == q {
					found = true
					break
				}
			}
			if !found {
				pre = append(pre, p)
			}
		}
	}
	return get, pre
}

// onlyFresh: every write of the loop to this array goes to an object allocated inside the loop.
func (lr *loopRun) onlyFresh(key string, c *comp) bool {
	if c.back == nil {
		return false
	}
	ok := true
	var rec func(a *Term)
	rec = func(a *Term) {
		switch a.Op {
		case OSto:
			r := a.Args[1]
			if !ge0(Sub(r, lr.alloc.v)) && !ge0(Sub(substVars(r, map[*Term]*Term{}, nil), lr.st.alloc)) {
				d := Sub(r, lr.alloc.v)
				if l, _ := Range(d); l == nil || l.Sign() < 0 {
					ok = false
				}
			}
			rec(a.Args[0])
		case OIte:
			rec(a.Args[1])
			rec(a.Args[2])
		case OArrTab:
			if d := Sub(a.Args[1], lr.alloc.v); !ge0(d) {
				ok = false
			}
			rec(a.Args[0])
		default:
			if a != c.v {
				ok = false
			}
		}
	}
	rec(c.back)
	return ok
}

// loopVars names the count of completed iterations: iters, and iter unless a parameter has that name.
func (ex *Exec) loopVars(k *Term) map[string]SV {
	m := map[string]SV{"iters": {V: k}}
	if _, ok := ex.params["iter"]; !ok {
		m["iter"] = SV{V: k}
	}
	return m
}

func (ex *Exec) evalInv(lr *loopRun, st *State, fr *Frame, inv Clause) *Term {
	env := &specEnv{ex: ex, st: st, old: ex.old, vars: ex.loopVars(lr.K), fn: fr.fn}
	env.names = func(n string) (SV, bool) { return ex.progVar(fr, st, n) }
	return ex.specEval(env, inv)
}

// progVar finds a program variable by name in the frame and its callers.
func (ex *Exec) progVar(fr *Frame, st *State, n string) (SV, bool) {
	for f := fr; f != nil; f = f.parent {
		if v, ok := f.names[n]; ok {
			if a, isA := v.(*addrOf); isA {
				return SV{V: ex.load(st, a.p), T: a.p.T}, true
			}
			return SV{V: v, T: f.typeOf(n)}, true
		}
		for i, fv := range f.fn.FreeVars {
			if fv.Name() == n && i < len(f.freev) {
				if p, ok := f.freev[i].(*PtrV); ok {
					return SV{V: ex.load(st, p), T: p.T}, true
				}
				return SV{V: f.freev[i], T: fv.Type()}, true
			}
		}
	}
	if v, ok := ex.params[n]; ok {
		return SV{V: v, T: ex.paramType(n)}, true
	}
	return SV{}, false
}

func (f *Frame) typeOf(n string) types.Type {
	for _, p := range f.fn.Params {
		if p.Name() == n {
			return p.Type()
		}
	}
	for _, l := range f.fn.Locals {
		if l.Comment == n {
			return l.Type().(*types.Pointer).Elem()
		}
	}
	return nil
}

func (ex *Exec) establish(lr *loopRun, st *State, fr *Frame, _ interface{}) {
	if lr.spec == nil {
		return
	}
	f := fr.clone()
	for p, v := range lr.entryV {
		f.env[p] = v
		if p.Comment != "" {
			f.names[p.Comment] = v
		}
	}
	saveK := lr.K
	lr.K = Zero
	for _, inv := range lr.spec.Invs {
		t := ex.evalInv(lr, st, f, inv)
		ex.oblige(st, "invariant-entry", fmt.Sprintf("loop %d invariant holds on entry: %s", lr.ord, inv.Text), t)
	}
	lr.K = saveK
}

func (ex *Exec) preserve(lr *loopRun, st *State, fr *Frame) {
	saveK := lr.K
	k1 := AddK(lr.K, 1)
	for _, inv := range lr.spec.Invs {
		lr.K = k1
		t := ex.evalInv(lr, st, fr, inv)
		lr.K = saveK
		ex.oblige(st, "invariant-kept", fmt.Sprintf("loop %d invariant is maintained: %s", lr.ord, inv.Text), t)
	}
	lr.K = saveK
}

// ---- recurrence solver

func (lr *loopRun) solve() {
	K := lr.K
	for progress := true; progress; {
		progress = false
		m := map[*Term]*Term{}
		for _, c := range lr.all {
			if c.closed != nil {
				m[c.v] = c.closed
			}
		}
		for _, c := range lr.all {
			if c.closed != nil || c.failed || c.back == nil {
				continue
			}
			b := substVars(c.back, m, nil)
			if cl := lr.solveOne(c, b, K); cl != nil {
				c.closed = cl
				progress = true
				m[c.v] = cl
			}
		}
	}
	// value of the previous iteration
	for progress := true; progress; {
		progress = false
		m := map[*Term]*Term{}
		for _, c := range lr.all {
			if c.closed != nil {
				m[c.v] = c.closed
			}
		}
		for _, c := range lr.all {
			if c.closed != nil || c.failed || c.back == nil {
				continue
			}
			b := substVars(c.back, m, nil)
			if lr.isClosed(b) {
				prev := substVars(b, map[*Term]*Term{K: AddK(K, -1)}, nil)
				c.closed = Ite(Eq(K, Zero), c.entry, prev)
				progress = true
				m[c.v] = c.closed
				continue
			}
			if cl := lr.solveOne(c, b, K); cl != nil {
				c.closed = cl
				progress = true
				m[c.v] = cl
			}
		}
	}
}

func contains(t, x *Term) bool { return occurs(t, func(y *Term) bool { return y == x }) }

func (lr *loopRun) solveOne(c *comp, b, K *Term) *Term {
	x := c.v
	if b == x {
		return c.entry
	}
	if !contains(b, x) && b == c.entry {
		return c.entry
	}
	switch {
	case x.Sort == SInt:
		d := Sub(b, x)
		if contains(d, x) || !lr.isClosed(d) {
			return nil
		}
		if !contains(d, K) {
			return Add(c.entry, Mul(d, K))
		}
		return Add(c.entry, Sum(Zero, K, abstract(d, K)))
	case x.Sort.Seq:
		if b.Op == OCat && b.Args[0] == x {
			rest := CatS(x.Sort, b.Args[1:]...)
			if contains(rest, x) || !lr.isClosed(rest) {
				return nil
			}
			return CatS(x.Sort, c.entry, Bigcat(Zero, K, abstract(rest, K)))
		}
		if b.Op == OUpd && b.Args[0] == x {
			idx, val := b.Args[1], b.Args[2]
			if contains(val, x) || contains(idx, x) || !lr.isClosed(idx) || !lr.isClosed(val) {
				return nil
			}
			c0 := Sub(idx, K)
			if !contains(c0, K) {
				body := abstract(val, K)
				return CatS(x.Sort, SubSeq(c.entry, Zero, c0, nil), Tab(Zero, K, body, x.Sort), SubSeq(c.entry, Add(c0, K), Len(c.entry), nil))
			}
			c0 = Add(idx, K)
			if !contains(c0, K) {
				// index c0-K : element j of the new tail block was written at iteration K-1-j
				bv := Fresh("bvj", SInt)
				body := abstract(substVars(val, map[*Term]*Term{K: Sub(AddK(K, -1), bv)}, nil), bv)
				return CatS(x.Sort, SubSeq(c.entry, Zero, AddK(Sub(c0, K), 1), nil), Tab(Zero, K, body, x.Sort), SubSeq(c.entry, AddK(c0, 1), Len(c.entry), nil))
			}
		}
	case x.Sort.Arr:
		// stores to fresh objects laid out with a constant stride
		type sto struct{ ref, val *Term }
		var stos []sto
		a := b
		for a.Op == OSto {
			stos = append(stos, sto{a.Args[1], a.Args[2]})
			a = a.Args[0]
		}
		if a != x {
			return nil
		}
		res := c.entry
		for i := len(stos) - 1; i >= 0; i-- {
			s := stos[i]
			if contains(s.ref, x) || contains(s.val, x) || !lr.isClosed(s.ref) || !lr.isClosed(s.val) {
				return nil
			}
			l := linOf(s.ref)
			cf := l.coef[K]
			if cf == nil || cf.Sign() <= 0 {
				return nil
			}
			start := Sub(s.ref, Scale(K, cf))
			if contains(start, K) {
				return nil
			}
			res = ArrTab(res, start, IntB(cf), K, abstract(s.val, K))
		}
		return res
	}
	return nil
}

// leaveLoop replaces the iteration counter by its final value when the exit condition fixes it.
func (ex *Exec) leaveLoop(lr *loopRun, fr *Frame, st *State) {
	K := lr.K
	var cands []*Term
	seen := map[*Term]bool{}
	for _, p := range st.pc {
		if p.Op != OGe0 && p.Op != OEq && p.Op != ONot {
			continue
		}
		q := p
		if q.Op == ONot {
			q = q.Args[0]
		}
		var l *linear
		if q.Op == OGe0 {
			l = linOf(q.Args[0])
		} else if q.Op == OEq && q.Args[0].Sort == SInt {
			l = linOf(Sub(q.Args[0], q.Args[1]))
		} else {
			continue
		}
		cf := l.coef[K]
		if cf == nil || cf.CmpAbs(bigOne) != 0 {
			continue
		}
		rest := Sub(l.term(), Scale(K, cf))
		if cf.Sign() > 0 {
			rest = Neg(rest)
		}
		if contains(rest, K) || rest.maxBV > 0 {
			continue
		}
		for _, d := range []int64{0, 1, -1} {
			e := AddK(rest, d)
			if !seen[e] {
				seen[e] = true
				cands = append(cands, e)
			}
		}
	}
	for _, e := range append(cands, Zero) {
		if contains(e, K) {
			continue
		}
		if ex.sess.Implied(st.pc, Eq(K, e)) {
			m := map[*Term]*Term{K: e}
			substState(st, m)
			d := ex.decider(st)
			for k, v := range fr.env {
				fr.env[k] = substVal(v, m, d)
			}
			for k, v := range fr.names {
				fr.names[k] = substVal(v, m, d)
			}
			return
		}
	}
}
