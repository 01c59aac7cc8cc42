package main

// Loading the code under verification, package variables, loops and bookkeeping shared by all functions.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	repo      string
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package // by module-relative path
	funcs     map[string]*ssa.Function
	contracts map[string]*Contract
	macros    map[string]*Macro

	usedLemma map[int]bool
	mu        sync.Mutex
	loopC     map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	fids      map[*ssa.Function]int64
	fidr      []*ssa.Function
	tids      map[string]int64
	regMu     sync.Mutex
	randUse   map[*ssa.Function]bool
	ifaceReg  map[*Term]*IfaceV

	inited    map[*ssa.Package]bool
	initSt    *State
	initEx    *Exec
	grefs     map[*ssa.Global]*Term
	initLimit int64
	mutated   map[*ssa.Global]bool
	initNotes []string
	extern    map[*ssa.Global]*Term
	lemmas    []*Lemma
}

func NewEngine(repo string) (*Engine, error) {
	e := &Engine{repo: repo, fset: token.NewFileSet(), pkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, contracts: map[string]*Contract{}, macros: map[string]*Macro{},
		loopC: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, fids: map[*ssa.Function]int64{}, tids: map[string]int64{}, ifaceReg: map[*Term]*IfaceV{}, inited: map[*ssa.Package]bool{}, grefs: map[*ssa.Global]*Term{}, mutated: map[*ssa.Global]bool{}, extern: map[*ssa.Global]*Term{}}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Fset: e.fset, Tests: false,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	lc := exec.Command("go", "list", "-e", "./...")
	lc.Dir, lc.Env = repo, cfg.Env
	lo, err := lc.Output()
	if err != nil {
		return nil, err
	}
	var pats []string
	for _, l := range strings.Fields(string(lo)) {
		if !strings.HasSuffix(l, "/examples") {
			pats = append(pats, l)
		}
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	nerr := 0
	for _, p := range ps {
		for _, x := range p.Errors {
			nerr++
			if nerr < 5 {
				fmt.Fprintln(os.Stderr, "load:", x)
			}
		}
	}
	prog, _ := ssautil.AllPackages(ps, ssa.GlobalDebug|ssa.InstantiateGenerics)
	e.prog = prog
	knownHash = e.algOf
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path()+"/", modPath) {
			p.Build()
			e.pkgs[relPkg(p.Pkg)] = p
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Synthetic == "" || strings.HasPrefix(f.Synthetic, "package init") {
			e.funcs[funcKey(f)] = f
		}
	}
	for _, p := range e.pkgs {
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok {
				e.addFunc(f)
			}
			if t, ok := m.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							e.addFunc(f)
						}
					}
				}
			}
		}
	}
	e.findMutated()
	return e, nil
}

func (e *Engine) addFunc(f *ssa.Function) { e.funcs[funcKey(f)] = f }

func inModule(f *ssa.Function) bool {
	var p *types.Package
	switch {
	case f.Pkg != nil:
		p = f.Pkg.Pkg
	case f.Object() != nil:
		p = f.Object().Pkg()
	case f.Parent() != nil:
		return inModule(f.Parent())
	}
	return p != nil && strings.HasPrefix(p.Path()+"/", modPath)
}

func (e *Engine) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*Loop {
	e.mu.Lock()
	defer e.mu.Unlock()
	if l, ok := e.loopC[f]; ok {
		return l
	}
	l := findLoops(f)
	e.loopC[f] = l
	return l
}

func (e *Engine) funcID(f *ssa.Function) int64 {
	e.mu.Lock()
	defer e.mu.Unlock()
	if id, ok := e.fids[f]; ok {
		return id
	}
	e.fidr = append(e.fidr, f)
	e.fids[f] = int64(len(e.fidr)) + 500000
	return e.fids[f]
}
func (e *Engine) funcByID(k int64) *ssa.Function {
	e.mu.Lock()
	defer e.mu.Unlock()
	k -= 500001
	if k >= 0 && k < int64(len(e.fidr)) {
		return e.fidr[k]
	}
	return nil
}
func (e *Engine) typeID(t types.Type) int64 {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := typeKey(t)
	if e.tids[k] == 0 {
		e.tids[k] = int64(len(e.tids) + 1)
	}
	return e.tids[k]
}
func (e *Engine) regIface(h *Term) (*IfaceV, bool) {
	e.regMu.Lock()
	defer e.regMu.Unlock()
	d, ok := e.ifaceReg[h]
	return d, ok
}

// findMutated: package variables written outside package initialisation.
func (e *Engine) findMutated() {
	for _, f := range e.funcs {
		if !inModule(f) {
			continue
		}
		isInit := f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
		var rec func(f *ssa.Function)
		rec = func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if isInit {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if g := rootGlobal(x.Addr); g != nil {
							e.mutated[g] = true
						}
					case *ssa.MapUpdate:
						if u, ok := x.Map.(*ssa.UnOp); ok {
							if g, ok := u.X.(*ssa.Global); ok {
								e.mutated[g] = true
							}
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				rec(a)
			}
		}
		rec(f)
	}
}
func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if u, ok := x.X.(*ssa.UnOp); ok {
				v = u.X
				continue
			}
			v = x.X
		default:
			return nil
		}
	}
}

// ---- package initialisation, executed once on concrete values

func (e *Engine) initPackages(ps []*ssa.Package) {
	ex := &Exec{eng: e, sess: nil, initMode: true, initCells: map[*ssa.Global]int{}, assumed: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}, loopIDs: map[string]int{}}
	ex.sess = &Session{dead: true, cache: map[string]bool{}}
	st := &State{heap: map[string]*Term{}, objs: map[int]*Obj{}, cells: map[int]Val{}, maps: map[int]*MapV{}, alloc: One, log: nil}
	ex.alloc0 = Zero
	e.initEx = ex
	e.initSt = st
	seen := map[*ssa.Package]bool{}
	var order []*ssa.Package
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Pkg.Imports() {
			if q := e.pkgs[relPkg(i)]; q != nil && strings.HasPrefix(i.Path()+"/", modPath) {
				visit(q)
			}
		}
		order = append(order, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Pkg.Path() < ps[j].Pkg.Path() })
	for _, p := range ps {
		visit(p)
	}
	for _, p := range order {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, ok := p.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			t := g.Type().(*types.Pointer).Elem()
			if _, isS := under(t).(*types.Struct); isS {
				pv := ex.allocVal(st, t)
				e.grefs[g] = pv.Ref
			} else {
				ex.nextID++
				ex.initCells[g] = ex.nextID
				st.cells[ex.nextID] = ex.zero(t)
			}
		}
		t0 := time.Now()
		e.runInit(ex, st, p)
		dbg("init %s %v", relPkg(p.Pkg), time.Since(t0))
		e.inited[p] = true
	}
	k, ok := st.alloc.Int64()
	if !ok {
		k = 400000
	}
	e.initLimit = k
}

func (e *Engine) runInit(ex *Exec, st *State, p *ssa.Package) {
	f := p.Func("init")
	if f == nil {
		return
	}
	fr := &Frame{fn: f, env: map[ssa.Value]Val{}, names: map[string]Val{}, active: map[*Loop]*active{}}
	fr.k = func(*State, []Val) {}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			func() {
				defer func() {
					if r := recover(); r != nil {
						u, ok := r.(unsupported)
						if !ok {
							panic(r)
						}
						e.initNotes = append(e.initNotes, relPkg(p.Pkg)+" init: "+u.msg)
						if v, ok := in.(ssa.Value); ok {
							fr.env[v] = OpaqueV{T: v.Type()}
						}
					}
				}()
				switch x := in.(type) {
				case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef, *ssa.Phi:
				case *ssa.Call:
					if c := x.Call.StaticCallee(); c != nil && c.Name() == "init" {
						return
					}
					done := false
					ex.steps = 0
					ex.call(fr, st, x, &x.Call, func(st2 *State, res []Val) {
						if done {
							ex.unsup("initialiser with several outcomes")
						}
						done = true
						*st = *st2
						switch len(res) {
						case 0:
						case 1:
							fr.env[x] = res[0]
						default:
							fr.env[x] = TupleV(res)
						}
					})
				default:
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok && g.Name() == "init$guard" {
							return
						}
					}
					ex.instr(fr, st, in)
				}
			}()
		}
	}
}

func (e *Engine) globalRef(g *ssa.Global) *Term { return e.grefs[g] }

// globalVal gives the value of a package variable outside initialisation.
func (ex *Exec) globalVal(st *State, g *ssa.Global) Val {
	t := g.Type().(*types.Pointer).Elem()
	if ex.initMode {
		if r := ex.eng.grefs[g]; r != nil {
			return ex.loadHeap(st, r, skey(t), t)
		}
		if id := ex.initCells[g]; id != 0 {
			return st.cells[id]
		}
		return ex.externGlobal(g, t)
	}
	if id := ex.globCells[g]; id != 0 {
		if v, ok := st.cells[id]; ok {
			return v
		}
	}
	if !strings.HasPrefix(g.Pkg.Pkg.Path()+"/", modPath) {
		return ex.externGlobal(g, t)
	}
	if ex.eng.mutated[g] {
		if ex.eng.writesGlobal(ex.fn, g, map[*ssa.Function]bool{}) {
			return ex.freshVal(st, "glob_"+g.Name(), t, false)
		}
		// not written by the function under verification or its callees: one value throughout
		if ex.globs[g] == nil {
			if ex.globs == nil {
				ex.globs = map[*ssa.Global]Val{}
			}
			v := ex.freshVal(st, "glob_"+g.Name(), t, false)
			if o, ok := v.(OpaqueV); ok {
				if _, isMap := under(t).(*types.Map); isMap {
					o.H = Fresh("map_"+g.Name(), SInt)
					v = o
				}
			}
			ex.globs[g] = v
			ex.assumed["package variable "+g.Name()+" is not changed while "+ex.ctName()+" runs"] = true
		}
		return ex.globs[g]
	}
	if r := ex.eng.grefs[g]; r != nil {
		return ex.loadHeap(st, r, skey(t), t)
	}
	if ex.eng.initEx != nil {
		if id := ex.eng.initEx.initCells[g]; id != 0 {
			return ex.importVal(ex.eng.initSt.cells[id], t, g)
		}
	}
	ex.unsup("package variable %s has no known value", g.Name())
	return nil
}

// importVal makes an initialisation-time value usable in a verification state.
func (ex *Exec) importVal(v Val, t types.Type, g *ssa.Global) Val {
	switch x := v.(type) {
	case *SliceV:
		if x.Obj > 0 {
			o := ex.eng.initSt.objs[x.Obj]
			c := SubSeq(o.C, x.Off, Add(x.Off, x.Len), nil)
			return pureSlice(c, x.Nil, x.Elem)
		}
		return x
	case *MapV:
		if x.Obj != 0 {
			m := *ex.eng.initSt.maps[x.Obj]
			m.Obj = 0
			r := &MapV{T: m.T}
			for i := range m.Keys {
				r.Keys = append(r.Keys, ex.importVal(m.Keys[i], m.T.Key(), g))
				r.Vals = append(r.Vals, ex.importVal(m.Vals[i], m.T.Elem(), g))
			}
			return r
		}
		return x
	case *PtrV:
		if x.Cell != 0 || x.Sl != nil {
			ex.unsup("package variable %s points into a local", g.Name())
		}
	case OpaqueV:
		return x
	}
	return v
}

func (ex *Exec) externGlobal(g *ssa.Global, t types.Type) Val {
	e := ex.eng
	e.mu.Lock()
	h := e.extern[g]
	if h == nil {
		h = Int(int64(len(e.extern)) + 700000)
		e.extern[g] = h
	}
	e.mu.Unlock()
	switch under(t).(type) {
	case *types.Interface:
		e.regMu.Lock()
		d := e.ifaceReg[h]
		if d == nil {
			d = &IfaceV{H: h, V: &ExternV{Name: g.Pkg.Pkg.Path() + "." + g.Name()}}
			e.ifaceReg[h] = d
		}
		e.regMu.Unlock()
		return d
	case *types.Struct:
		return &StructV{T: t}
	case *types.Pointer:
		return &PtrV{Ref: h, Key: ptrKey(under(t).(*types.Pointer).Elem()), T: under(t).(*types.Pointer).Elem()}
	}
	return ex.freshVal(&State{heap: map[string]*Term{}, objs: map[int]*Obj{}, alloc: IntB(maxLen)}, "ext_"+g.Name(), t, false)
}

type ExternV struct{ Name string }

// initHeap resolves a load at a constant reference made by package initialisation.
func (ex *Exec) sel(st *State, key string, t types.Type, s *Sort, ref *Term) *Term {
	if !ex.initMode {
		if k, ok := ref.Int64(); ok && k > 0 && k < ex.eng.initLimit {
			if a := ex.eng.initSt.heap[key]; a != nil {
				r := Sel(a, ref, nil)
				if r.Op != OSel {
					return r
				}
			}
		}
		if ref.Op == OIte && constLeaves(ref) {
			return Ite(ref.Args[0], ex.sel(st, key, t, s, ref.Args[1]), ex.sel(st, key, t, s, ref.Args[2]))
		}
	}
	if ref.Op == OVar || ref.Op == OSel {
		ref = resolve(st, ref)
	}
	r := Sel(ex.heapArr(st, key, t, s), ref, ex.decider(st))
	if r.Op == OSel && s == SInt && ref != Zero {
		r = resolve(st, r)
	}
	return r
}

// resolve uses the equations among the path's facts: a constant for t, or an older term.
func resolve(st *State, t *Term) *Term {
	for n := 0; n < 4; n++ {
		next := t
		for _, p := range st.pc {
			if p.Op != OEq || !p.Args[1].isConst() {
				continue
			}
			l := p.Args[0]
			if l == t {
				return p.Args[1]
			}
			if l.Op == OLin && len(l.Args) == 2 && l.K.Sign() == 0 && p.Args[1] == Zero && l.Coef[0].IsInt64() && l.Coef[1].IsInt64() && l.Coef[0].Int64()*l.Coef[1].Int64() == -1 {
				o := l.Args[0]
				if o == t {
					o = l.Args[1]
				} else if l.Args[1] != t {
					continue
				}
				if o.ID < next.ID && o.Op != OApp {
					next = o
				}
			}
		}
		if next == t {
			return t
		}
		t = next
	}
	return t
}
func constLeaves(t *Term) bool {
	if t.Op == OIte {
		return constLeaves(t.Args[1]) && constLeaves(t.Args[2])
	}
	return t.isConst()
}

// writesGlobal: f or a repository function it may call assigns g.
func (e *Engine) writesGlobal(f *ssa.Function, g *ssa.Global, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if rootGlobal(x.Addr) == g {
					return true
				}
			case *ssa.MapUpdate:
				if u, ok := x.Map.(*ssa.UnOp); ok && u.X == g {
					return true
				}
			}
			for _, op := range in.Operands(nil) {
				if c, ok := (*op).(*ssa.Function); ok && e.funcs[funcKey(c)] == c && e.writesGlobal(c, g, seen) {
					return true
				}
			}
		}
	}
	return false
}
