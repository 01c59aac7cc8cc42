package main

// Calls: built-ins, intrinsics for external functions, contracts, inlining.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type HashV struct {
	H   *Term // constructor of an unknown or keyed hash
	Alg string
	Key *Term
	Ref *Term
}

type kont func(st *State, res []Val)

func (ex *Exec) call(fr *Frame, st *State, site ssa.CallInstruction, cc *ssa.CallCommon, k kont) {
	var args []Val
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		for _, a := range cc.Args {
			args = append(args, ex.val(fr, st, a))
		}
		k(st, ex.builtin(fr, st, b, cc, args))
		return
	}
	for _, a := range cc.Args {
		args = append(args, ex.val(fr, st, a))
	}
	if cc.IsInvoke() {
		rv, ok := ex.val(fr, st, cc.Value).(*IfaceV)
		if !ok {
			ex.unsup("method call on %T", ex.val(fr, st, cc.Value))
		}
		ex.invoke(fr, st, rv, cc, args, k)
		return
	}
	if f := cc.StaticCallee(); f != nil {
		var fv []Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			fv = ex.val(fr, st, mc).(*FuncV).Bind
		}
		ex.callFunc(fr, st, f, args, fv, cc, k)
		return
	}
	fv, ok := ex.val(fr, st, cc.Value).(*FuncV)
	if !ok {
		ex.unsup("call of %T", ex.val(fr, st, cc.Value))
	}
	ex.callValue(fr, st, fv, cc, args, k)
}

func (ex *Exec) callValue(fr *Frame, st *State, fv *FuncV, cc *ssa.CallCommon, args []Val, k kont) {
	if fv.Fn != nil {
		ex.callFunc(fr, st, fv.Fn, args, fv.Bind, cc, k)
		return
	}
	ex.oblige(st, "panic", "call of nil function", Ne(fv.H, Zero))
	// a function selected among known ones
	if leaves, ok := funcLeaves(fv.H); ok {
		for _, lf := range leaves {
			id, _ := lf.k.Int64()
			f := ex.eng.funcByID(id)
			if id == 0 || f == nil {
				continue
			}
			if !ex.feasible(st, lf.c) {
				continue
			}
			st2 := st.clone()
			ex.assume(st2, lf.c)
			ex.callFunc(fr.clone(), st2, f, args, nil, cc, k)
		}
		return
	}
	// unknown function: a pure function of its arguments
	ex.assumed["calls through unknown function values are treated as pure, deterministic functions that do not panic"] = true
	ts := []*Term{fv.H}
	for i, a := range args {
		_ = i
		ts = append(ts, ex.argTerm(st, a))
	}
	sig := cc.Signature()
	ex.opaqueResults(st, "fncall", ts, sig, k)
}

type leaf struct{ c, k *Term }

func funcLeaves(h *Term) ([]leaf, bool) {
	if h.Op == OIte {
		a, ok1 := funcLeaves(h.Args[1])
		b, ok2 := funcLeaves(h.Args[2])
		if !ok1 || !ok2 {
			return nil, false
		}
		m := map[*Term]*Term{}
		var order []*Term
		add := func(c, k *Term) {
			if o := m[k]; o != nil {
				m[k] = Or(o, c)
			} else {
				m[k] = c
				order = append(order, k)
			}
		}
		for _, l := range a {
			add(And(h.Args[0], l.c), l.k)
		}
		for _, l := range b {
			add(And(Not(h.Args[0]), l.c), l.k)
		}
		var out []leaf
		for _, k := range order {
			out = append(out, leaf{m[k], k})
		}
		return out, true
	}
	if h.isConst() {
		return []leaf{{True, h}}, true
	}
	return nil, false
}

func (ex *Exec) argTerm(st *State, a Val) *Term {
	switch x := a.(type) {
	case *Term:
		return x
	case *SliceV:
		return ex.content(st, x)
	case *PtrV:
		if x.Ref != nil {
			return x.Ref
		}
	case *IfaceV:
		return ex.ifaceHandle(st, x)
	case *FuncV:
		return ex.funcHandle(x)
	}
	ex.unsup("argument %T of an unknown function", a)
	return nil
}

// opaqueResults gives results as uninterpreted functions of the arguments.
func (ex *Exec) opaqueResults(st *State, name string, ts []*Term, sig *types.Signature, k kont) {
	res := sig.Results()
	var out []Val
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		switch under(t).(type) {
		case *types.Slice:
			c := App(fmt.Sprintf("%s_b%d", name, i), seqSort(under(t).(*types.Slice).Elem()), ts...)
			nl := App(fmt.Sprintf("%s_n%d", name, i), SBool, ts...)
			ex.assume(st, Implies(nl, Eq(Len(c), Zero)))
			out = append(out, ex.ownedFrom(st, c, nl, under(t).(*types.Slice).Elem()))
		case *types.Interface:
			if typeKey(t) == "hash.Hash" && len(ts) == 1 {
				out = append(out, ex.newHash(st, &HashV{Alg: "fn", H: ts[0]}))
				continue
			}
			h := App(fmt.Sprintf("%s_e%d", name, i), SInt, ts...)
			ex.assume(st, Ge0(h))
			out = append(out, &IfaceV{H: h})
		case *types.Basic:
			if isBool(t) {
				out = append(out, App(fmt.Sprintf("%s_p%d", name, i), SBool, ts...))
			} else if isString(t) {
				out = append(out, App(fmt.Sprintf("%s_b%d", name, i), SeqB, ts...))
			} else {
				r := App(fmt.Sprintf("%s_i%d", name, i), SInt, ts...)
				if rg, ok := typeRange(t); ok {
					ex.assume(st, And(Ge(r, IntB(rg.lo)), Le(r, IntB(rg.hi))))
				}
				out = append(out, r)
			}
		default:
			out = append(out, ex.freshVal(st, name, t, true))
		}
	}
	// split on error results
	ex.splitErr(st, out, sig, 0, k)
}

func (ex *Exec) ownedFrom(st *State, c, nl *Term, elem types.Type) *SliceV {
	s := ex.newSlice(st, c, elem, false)
	s.Nil = nl
	return s
}

func isErrType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (ex *Exec) splitErr(st *State, out []Val, sig *types.Signature, i int, k kont) {
	res := sig.Results()
	for ; i < res.Len(); i++ {
		if !isErrType(res.At(i).Type()) {
			continue
		}
		iv := out[i].(*IfaceV)
		if iv.H == nil || iv.H == Zero {
			continue
		}
		if l, _ := Range(iv.H); l != nil && l.Sign() > 0 {
			continue
		}
		z := Eq(iv.H, Zero)
		if ex.feasible(st, z) {
			st2 := st.clone()
			ex.assume(st2, z)
			out2 := append([]Val{}, out...)
			out2[i] = &IfaceV{H: Zero}
			ex.splitErr(st2, out2, sig, i+1, k)
		}
		if ex.feasible(st, Not(z)) {
			ex.assume(st, Not(z))
			ex.assume(st, Ge(iv.H, One))
			h := VarR(freshName("err"), bigOne, nil)
			ex.assume(st, Eq(h, iv.H))
			out2 := append([]Val{}, out...)
			out2[i] = &IfaceV{H: h}
			ex.splitErr(st, out2, sig, i+1, k)
		}
		return
	}
	k(st, out)
}

func (ex *Exec) callFunc(fr *Frame, st *State, f *ssa.Function, args []Val, fv []Val, cc *ssa.CallCommon, k kont) {
	key := funcKey(f)
	if in, ok := intrinsicsK[key]; ok {
		ex.noteIntr(key)
		in(ex, fr, st, args, cc, k)
		return
	}
	if in, ok := intrinsics[key]; ok {
		ex.noteIntr(key)
		k(st, in(ex, st, args))
		return
	}
	if ct := ex.calleeContract(key); ct != nil {
		ex.applyContract(fr, st, ct, f, args, k)
		return
	}
	if f.Blocks == nil && f.Pkg != nil {
		// generic instance or not built
	}
	if inModule(f) && len(f.Blocks) > 0 {
		if ex.ct == nil || key != ex.ct.Key || f.Parent() != nil {
			for p := fr; p != nil; p = p.parent {
				if p.fn == f {
					ex.unsup("recursive call of %s without a contract", key)
				}
			}
		}
		ex.inlined[key] = true
		ex.runFunc(f, args, fv, st, fr, k)
		return
	}
	if f.Synthetic != "" && len(f.Blocks) > 0 {
		ex.runFunc(f, args, fv, st, fr, k)
		return
	}
	if pureExternal(key) {
		ex.assumed["external "+key+" is pure and does not panic; its result is left unconstrained"] = true
		sig := cc.Signature()
		var out []Val
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			out = append(out, ex.freshVal(st, "ext", t, true))
		}
		ex.splitErr(st, out, sig, 0, k)
		return
	}
	ex.unsup("call of external function %s", key)
}

func (ex *Exec) noteIntr(key string) {
	if !ex.initMode {
		ex.assumed["model of "+key] = true
	}
}

func (ex *Exec) calleeContract(key string) *Contract {
	if ex.initMode {
		return nil
	}
	if ex.ct != nil {
		for _, k := range ex.ct.CallInline {
			if k == key {
				return nil
			}
		}
		for _, u := range ex.ct.Use {
			if strings.HasPrefix(u, key+"#") {
				return ex.eng.contracts[u]
			}
		}
	}
	c := ex.eng.contracts[key]
	if c != nil && (c.Inline || len(c.Ens) == 0 && c.Trusted == "") {
		return nil
	}
	return c
}

func (ex *Exec) invoke(fr *Frame, st *State, rv *IfaceV, cc *ssa.CallCommon, args []Val, k kont) {
	m := cc.Method
	if rv.Dyn == nil && rv.H != nil && rv.H != Zero {
		if d, ok := ex.eng.regIface(rv.H); ok {
			rv = d
		}
	}
	if h, ok := rv.V.(*HashV); ok {
		k(st, ex.hashMethod(st, h, m.Name(), args))
		return
	}
	if e, ok := rv.V.(*ExternV); ok {
		if e.Name == "crypto/rand.Reader" {
			ex.unsup("method of crypto/rand.Reader")
		}
	}
	if rv.Dyn != nil {
		f := ex.eng.prog.LookupMethod(rv.Dyn, m.Pkg(), m.Name())
		if f == nil {
			ex.unsup("method %s not found on %s", m.Name(), rv.Dyn)
		}
		ex.callFunc(fr, st, f, append([]Val{rv.V}, args...), nil, cc, k)
		return
	}
	ex.oblige(st, "panic", "method call on nil interface", Ne(rv.H, Zero))
	if m.Name() == "Error" && isErrType(cc.Value.Type()) {
		k(st, []Val{App("errtext", SeqB, rv.H)})
		return
	}
	// a contract on the interface method
	ik := typeKey(cc.Value.Type()) + "." + m.Name()
	if ct := ex.eng.contracts[ik]; ct != nil {
		ex.applyIface(fr, st, ct, rv, cc, args, k)
		return
	}
	if in, ok := intrinsics[ik]; ok {
		ex.noteIntr(ik)
		k(st, in(ex, st, append([]Val{rv}, args...)))
		return
	}
	// every implementer in the module
	impls := ex.eng.implementers(under(cc.Value.Type()).(*types.Interface))
	if len(impls) == 0 {
		ex.unsup("method %s of unknown dynamic type", ik)
	}
	ex.assumed["values of interface "+typeKey(cc.Value.Type())+" are of a type defined in this module"] = true
	for _, t := range impls {
		tag := Eq(App("dyntype", SInt, rv.H), Int(ex.eng.typeID(t)))
		if !ex.feasible(st, tag) {
			continue
		}
		st2 := st.clone()
		ex.assume(st2, tag)
		var recv Val
		if pt, ok := t.(*types.Pointer); ok {
			r := App("ifaceptr", SInt, rv.H)
			ex.assume(st2, And(Gt(r, Zero), Lt(r, ex.alloc0)))
			recv = &PtrV{Ref: r, Key: ptrKey(pt.Elem()), T: pt.Elem()}
		} else {
			recv = ex.freshVal(st2, "recv", t, false)
		}
		f := ex.eng.prog.LookupMethod(t, m.Pkg(), m.Name())
		ex.callFunc(fr.clone(), st2, f, append([]Val{recv}, args...), nil, cc, k)
	}
}

func (e *Engine) implementers(it *types.Interface) []types.Type {
	var out []types.Type
	var keys []string
	for k := range e.pkgs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		p := e.pkgs[k]
		var ns []string
		for n := range p.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			t, ok := p.Members[n].(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			if nt, ok := t.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(t.Type(), it) {
				out = append(out, t.Type())
			} else if types.Implements(types.NewPointer(t.Type()), it) {
				out = append(out, types.NewPointer(t.Type()))
			}
		}
	}
	return out
}

// ---- built-in functions

func (ex *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Val) []Val {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Term:
			return []Val{Len(x)}
		case *SliceV:
			return []Val{x.Len}
		case *MapV:
			if x.Obj != 0 && st.maps[x.Obj] != nil {
				x = st.maps[x.Obj]
			}
			return []Val{Int(int64(len(x.Keys)))}
		case *PtrV:
			if a, ok := under(x.T).(*types.Array); ok {
				return []Val{Int(a.Len())}
			}
		}
		return []Val{VarR(freshName("len"), Zero.K, maxLen)}
	case "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if x.Cap != nil {
				return []Val{x.Cap}
			}
			v := VarR(freshName("cap"), Zero.K, maxLen)
			ex.assume(st, Ge(v, x.Len))
			return []Val{v}
		case *PtrV:
			if a, ok := under(x.T).(*types.Array); ok {
				return []Val{Int(a.Len())}
			}
		}
	case "append":
		s, ok := args[0].(*SliceV)
		if !ok {
			ex.unsup("append to %T", args[0])
		}
		if len(args) < 2 {
			return []Val{s}
		}
		var xs *Term
		switch y := args[1].(type) {
		case *SliceV:
			xs = ex.content(st, y)
		case *Term:
			xs = y
		default:
			ex.unsup("append of %T", args[1])
		}
		return []Val{ex.appendTo(st, s, xs)}
	case "copy":
		d, ok := args[0].(*SliceV)
		if !ok {
			ex.unsup("copy into %T", args[0])
		}
		var src *Term
		switch y := args[1].(type) {
		case *SliceV:
			src = ex.content(st, y)
		case *Term:
			src = y
		}
		n := Ite(Le(Len(src), d.Len), Len(src), d.Len)
		if ex.sess != nil && !ex.sess.dead && n.Op == OIte {
			if ex.sess.Implied(st.pc, Le(Len(src), d.Len)) {
				n = Len(src)
			} else if ex.sess.Implied(st.pc, Le(d.Len, Len(src))) {
				n = d.Len
			}
		}
		if n != Zero {
			dec := ex.decider(st)
			ex.mutate(st, d, func(c, off *Term) *Term {
				total := Len(c)
				return CatS(c.Sort, SubSeq(c, Zero, off, dec), SubSeq(src, Zero, n, dec), SubSeq(c, Add(off, n), total, dec))
			})
		}
		return []Val{n}
	case "delete":
		m, ok := args[0].(*MapV)
		if !ok || m.Obj == 0 {
			ex.unsup("delete from unknown map")
		}
		ex.unsup("map delete")
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if b.Name() == "min" {
				r = Ite(Le(r, t), r, t)
			} else {
				r = Ite(Le(r, t), t, r)
			}
		}
		return []Val{r}
	case "print", "println":
		return nil
	case "recover":
		return []Val{&IfaceV{H: Zero}}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*PtrV); ok {
			ex.nonNil(st, p)
		}
		return []Val{args[0]}
	case "clear":
		ex.unsup("clear")
	}
	ex.unsup("builtin %s", b.Name())
	return nil
}

// ---- contracts at call sites

func resultNames(sig *types.Signature) []string {
	var out []string
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Name())
	}
	return out
}

func bindResults(env *specEnv, sig *types.Signature, res []Val) {
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		t := sig.Results().At(i).Type()
		v := SV{V: res[i], T: t}
		if nm := sig.Results().At(i).Name(); nm != "" && nm != "_" {
			env.vars[nm] = v
		}
		env.vars[fmt.Sprintf("result%d", i)] = v
		if i == 0 {
			env.vars["result"] = v
		}
		if i == n-1 && isErrType(t) {
			env.vars["err"] = v
		}
	}
}

func (ex *Exec) specEval(env *specEnv, c Clause) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case specErr:
				panic(unsupported{"contract clause " + c.Text + ": " + e.msg})
			case unsupported:
				panic(unsupported{"contract clause " + c.Text + ": " + e.msg})
			case string:
				panic(unsupported{"contract clause " + c.Text + ": " + e})
			}
			panic(r)
		}
	}()
	return env.term(c.Expr)
}

func (ex *Exec) paramEnv(f *ssa.Function, args []Val, st, old *State) *specEnv {
	env := &specEnv{ex: ex, st: st, old: old, vars: map[string]SV{}, fn: f}
	for i, p := range f.Params {
		if i < len(args) {
			env.vars[p.Name()] = SV{V: args[i], T: p.Type()}
			env.vars[fmt.Sprintf("arg%d", i)] = env.vars[p.Name()]
			if i == 0 && f.Signature.Recv() != nil {
				env.vars["recv"] = env.vars[p.Name()]
			}
		}
	}
	if len(f.Params) == 0 { // a dependency known by its signature only
		ps := f.Signature.Params()
		off := 0
		if r := f.Signature.Recv(); r != nil && len(args) > 0 {
			env.vars["recv"] = SV{V: args[0], T: r.Type()}
			env.vars[r.Name()] = env.vars["recv"]
			off = 1
		}
		for i := 0; i < ps.Len() && i+off < len(args); i++ {
			env.vars[ps.At(i).Name()] = SV{V: args[i+off], T: ps.At(i).Type()}
			env.vars[fmt.Sprintf("arg%d", i+off)] = env.vars[ps.At(i).Name()]
		}
	}
	return env
}

const allocGap = 4096

func (ex *Exec) applyContract(fr *Frame, st *State, ct *Contract, f *ssa.Function, args []Val, k kont) {
	ex.used[ct.ID()] = true
	pre := st.clone()
	env := ex.paramEnv(f, args, pre, pre)
	if f.Signature.Recv() != nil {
		if p, ok := args[0].(*PtrV); ok {
			ex.nonNil(st, p)
		}
	}
	ex.applySig(fr, st, pre, ct, env, f.Signature, k)
}

func (ex *Exec) applyIface(fr *Frame, st *State, ct *Contract, rv *IfaceV, cc *ssa.CallCommon, args []Val, k kont) {
	ex.used[ct.ID()] = true
	pre := st.clone()
	env := &specEnv{ex: ex, st: pre, old: pre, vars: map[string]SV{}, fn: fr.fn}
	env.vars["recv"] = SV{V: rv, T: cc.Value.Type()}
	sig := cc.Signature()
	for i := 0; i < sig.Params().Len(); i++ {
		env.vars[sig.Params().At(i).Name()] = SV{V: args[i], T: sig.Params().At(i).Type()}
		env.vars[fmt.Sprintf("arg%d", i+1)] = SV{V: args[i], T: sig.Params().At(i).Type()}
	}
	ex.applySig(fr, st, pre, ct, env, sig, k)
}

func (ex *Exec) applySig(fr *Frame, st, pre *State, ct *Contract, env *specEnv, sig *types.Signature, k kont) {
	for _, r := range ct.Req {
		t := ex.specEval(env, r)
		ex.oblige(st, "pre", "precondition of "+ct.ID()+": "+r.Text, t)
	}
	var freshVars []*Term
	fv := func(n string, s *Sort) *Term {
		v := Fresh(n, s)
		freshVars = append(freshVars, v)
		return v
	}
	// havoc what the contract modifies
	for _, m := range env.modLocs(ct) {
		ex.havocLoc(st, m, fv, ct)
	}
	if f := ex.eng.funcs[ct.Key]; f != nil && ex.eng.usesRand(f) {
		c0 := ex.sel(st, "rand.$n", types.Typ[types.Int], SInt, Zero)
		c := fv("oscount", SInt)
		ex.assume(st, Ge(c, c0))
		ex.rawStore(st, Zero, "rand.$n", SInt, types.Typ[types.Int], c)
	}
	// results
	var res []Val
	freshRes := map[int]bool{}
	for _, e := range ct.Ens {
		s := strings.ReplaceAll(e.Text, " ", "")
		for i := 0; i < sig.Results().Len(); i++ {
			if strings.Contains(s, fmt.Sprintf("fresh(result%d)", i)) || i == 0 && strings.Contains(s, "fresh(result)") {
				freshRes[i] = true
			}
		}
	}
	allocs := ct.Allocs
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		name := fmt.Sprintf("r%d_%s", i, shortKey(ct.Key))
		switch u := under(t).(type) {
		case *types.Pointer:
			if freshRes[i] {
				r := ex.allocRef(st)
				p := &PtrV{Ref: r, Key: ptrKey(u.Elem()), T: u.Elem()}
				// fresh object: unconstrained fields
				if isBigInt(u.Elem()) {
					ex.rawStore(st, r, "big.$v", SInt, nil, fv(name+"_v", SInt))
				} else if su, ok := under(u.Elem()).(*types.Struct); ok {
					ex.havocFields(st, r, skey(u.Elem()), su, fv)
				}
				allocs = true
				res = append(res, p)
				continue
			}
			allocs = true
			v := ex.freshVal(st, name, t, true)
			freshVars = append(freshVars, v.(*PtrV).Ref)
			res = append(res, v)
		case *types.Slice:
			c := ex.freshSeq(name, seqSort(u.Elem()), u.Elem(), st)
			nl := Fresh(name+"_nil", SBool)
			freshVars = append(freshVars, c, nl)
			ex.assume(st, Implies(nl, Eq(Len(c), Zero)))
			if freshRes[i] {
				res = append(res, ex.ownedFrom(st, c, nl, u.Elem()))
			} else {
				res = append(res, pureSlice(c, nl, u.Elem()))
			}
		case *types.Basic, *types.Array:
			v := ex.freshVal(st, name, t, true)
			if tv, ok := v.(*Term); ok {
				freshVars = append(freshVars, tv)
			}
			res = append(res, v)
		default:
			v := ex.freshVal(st, name, t, true)
			if iv, ok := v.(*IfaceV); ok && iv.H != nil {
				freshVars = append(freshVars, iv.H)
			}
			res = append(res, v)
		}
	}
	if allocs {
		st.alloc = AddK(st.alloc, allocGap)
	}
	// one continuation per outcome of the error result
	n := sig.Results().Len()
	if n > 0 && isErrType(sig.Results().At(n-1).Type()) {
		st2 := st.clone()
		ok := append([]Val{}, res...)
		ok[n-1] = &IfaceV{H: Zero}
		ex.finishContract(fr, st2, ct, env, sig, ok, freshVars, k)
		bad := append([]Val{}, res...)
		bad[n-1] = &IfaceV{H: VarR(freshName("err"), bigOne, nil)}
		ex.finishContract(fr, st, ct, env, sig, bad, freshVars, k)
		return
	}
	ex.finishContract(fr, st, ct, env, sig, res, freshVars, k)
}

func shortKey(k string) string {
	if i := strings.LastIndexByte(k, '.'); i >= 0 {
		return k[i+1:]
	}
	return k
}

func (ex *Exec) havocFields(st *State, r *Term, key string, su *types.Struct, fv func(string, *Sort) *Term) {
	for i := 0; i < su.NumFields(); i++ {
		f := su.Field(i)
		k := fieldKey(key, f, i)
		if isBigInt(f.Type()) {
			continue
		}
		switch u := under(f.Type()).(type) {
		case *types.Struct:
			ex.havocFields(st, r, k, u, fv)
		case *types.Slice:
			ex.rawStore(st, r, k, seqSort(u.Elem()), f.Type(), fv(k, seqSort(u.Elem())))
			nl := fv(k+"_nil", SBool)
			ex.rawStore(st, r, k+"#nil", SBool, nil, nl)
		default:
			s := heapSort(f.Type())
			v := fv(k, s)
			if s == SInt {
				if rg, ok := typeRange(f.Type()); ok {
					tmu.Lock()
					varRange[v.Name] = rg
					tmu.Unlock()
				}
			}
			ex.rawStore(st, r, k, s, f.Type(), v)
		}
	}
}

func (ex *Exec) havocLoc(st *State, m modLoc, fv func(string, *Sort) *Term, ct *Contract) {
	if m.obj != 0 {
		o := st.objs[m.obj]
		// the caller must be allowed to write there too
		ex.mutate(st, &SliceV{Obj: m.obj, Off: Zero, Len: Len(o.C), Elem: o.Elem}, func(c, off *Term) *Term {
			v := fv("content", c.Sort)
			ex.assume(st, Eq(Len(v), Len(c)))
			return v
		})
		return
	}
	for _, key := range ex.matchKeys(st, m) {
		arr := st.heap[key]
		if arr == nil {
			continue
		}
		es := arr.Sort.Elem
		if m.ref == nil {
			base := baseVar(arr)
			v := Fresh("H:"+key, arr.Sort)
			if base != nil {
				tmu.Lock()
				if r, ok := arrRange[base.Name]; ok {
					arrRange[v.Name] = r
				}
				tmu.Unlock()
			}
			st.heap[key] = v
			st.log.whole(key)
			continue
		}
		ex.frameCheck(st, m.ref, key)
		v := fv(key, es)
		if es == SInt {
			if base := baseVar(arr); base != nil {
				tmu.Lock()
				if r, ok := arrRange[base.Name]; ok {
					varRange[v.Name] = r
				}
				tmu.Unlock()
			}
		}
		st.heap[key] = Sto(arr, m.ref, v)
		st.log.wheap(key, m.ref)
	}
}

// matchKeys lists (and materialises) the heap keys a location covers.
func (ex *Exec) matchKeys(st *State, m modLoc) []string {
	var out []string
	if t := ex.eng.keyType(m.key); t != nil {
		ex.touch(st, m.key, t)
	} else if m.key == "big.$v" {
		ex.heapArr(st, "big.$v", nil, SInt)
	} else if m.key == "hash.$data" {
		ex.heapArr(st, "hash.$data", nil, SeqB)
	}
	for _, k := range sortedKeys(st.heap) {
		if m.matches(k) {
			out = append(out, k)
		}
	}
	return out
}

func (ex *Exec) touch(st *State, key string, t types.Type) {
	if isBigInt(t) {
		return
	}
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ex.touch(st, fieldKey(key, u.Field(i), i), u.Field(i).Type())
		}
	case *types.Slice:
		ex.heapArr(st, key, t, seqSort(u.Elem()))
		ex.heapArr(st, key+"#nil", nil, SBool)
	default:
		ex.heapArr(st, key, t, heapSort(t))
	}
}

// keyType finds the Go type of a heap key such as "xbase.Buffer.data".
func (e *Engine) keyType(key string) types.Type {
	parts := strings.Split(key, ".")
	slash := 0
	_ = slash
	for n := 1; n <= len(parts)-1 && n <= 2; n++ {
		pk := e.pkgs[strings.Join(parts[:n], ".")]
		if pk == nil {
			continue
		}
		tm, ok := pk.Members[parts[n]].(*ssa.Type)
		if !ok {
			return nil
		}
		t := tm.Type()
		for _, f := range parts[n+1:] {
			u, ok := under(t).(*types.Struct)
			if !ok {
				return nil
			}
			found := false
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == f {
					t = u.Field(i).Type()
					found = true
				}
			}
			if !found {
				return nil
			}
		}
		return t
	}
	return nil
}

func (ex *Exec) finishContract(fr *Frame, st *State, ct *Contract, env0 *specEnv, sig *types.Signature, res []Val, freshVars []*Term, k kont) {
	env := *env0
	env.vars = map[string]SV{}
	for n, v := range env0.vars {
		env.vars[n] = v
	}
	env.st = st
	env.atCall = true
	bindResults(&env, sig, res)
	fset := map[*Term]bool{}
	for _, v := range freshVars {
		fset[v] = true
	}
	var conj []*Term
	for _, e := range ct.Ens {
		t := ex.specEval(&env, e)
		if t.Op == OAnd {
			conj = append(conj, t.Args...)
		} else {
			conj = append(conj, t)
		}
	}
	// bind fresh symbols defined by equations
	m := map[*Term]*Term{}
	for again := true; again; {
		again = false
		for i, c := range conj {
			if c == nil || c == True {
				continue
			}
			v, def := solveFor(c, fset)
			if v == nil {
				continue
			}
			m2 := map[*Term]*Term{v: def}
			for x, d := range m {
				m[x] = substVars(d, m2, nil)
			}
			m[v] = def
			delete(fset, v)
			conj[i] = True
			for j := range conj {
				if j != i && conj[j] != nil {
					conj[j] = substVars(conj[j], m2, nil)
				}
			}
			var flat []*Term
			for _, c := range conj {
				if c.Op == OAnd {
					flat = append(flat, c.Args...)
				} else if c != True {
					flat = append(flat, c)
				}
			}
			conj = flat
			again = true
			break
		}
	}
	if len(m) > 0 {
		d := ex.decider(st)
		for i := range res {
			res[i] = substVal(res[i], m, d)
		}
		substState(st, m)
	}
	for _, c := range conj {
		if c == False {
			return
		}
		ex.assume(st, c)
	}
	if len(conj) > 0 && !ex.feasible(st, True) {
		return
	}
	k(st, res)
}

// solveFor finds a fresh variable the conjunct defines.
func solveFor(c *Term, fset map[*Term]bool) (*Term, *Term) {
	free := func(t, v *Term) bool { return occurs(t, func(x *Term) bool { return x == v }) }
	switch c.Op {
	case OVar:
		if fset[c] {
			return c, True
		}
	case ONot:
		if fset[c.Args[0]] {
			return c.Args[0], False
		}
	case OEq:
		a, b := c.Args[0], c.Args[1]
		if fset[a] && !free(b, a) {
			return a, b
		}
		if fset[b] && !free(a, b) {
			return b, a
		}
		if a.Sort == SInt {
			l := newLin()
			l.add(a, bigOne)
			l.add(b, bigM1)
			for _, at := range l.atoms {
				cf := l.coef[at]
				if fset[at] && cf.CmpAbs(bigOne) == 0 {
					rest := newLin()
					ok := true
					rest.k.Set(l.k)
					for _, o := range l.atoms {
						if o != at {
							rest.add1(o, l.coef[o])
							if free(o, at) {
								ok = false
							}
						}
					}
					if !ok {
						continue
					}
					r := rest.term()
					if cf.Sign() > 0 {
						r = Neg(r)
					}
					return at, r
				}
			}
		}
	}
	return nil, nil
}

func substVal(v Val, m map[*Term]*Term, d Decider) Val {
	s := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return substVars(t, m, d)
	}
	switch x := v.(type) {
	case *Term:
		return s(x)
	case *SliceV:
		n := *x
		n.Nil, n.C, n.Off, n.Len, n.Cap = s(x.Nil), s(x.C), s(x.Off), s(x.Len), s(x.Cap)
		return &n
	case *PtrV:
		n := *x
		n.Ref, n.Idx = s(x.Ref), s(x.Idx)
		if x.Sl != nil {
			n.Sl = substVal(x.Sl, m, d).(*SliceV)
		}
		if x.Arr != nil {
			n.Arr = substVal(x.Arr, m, d).(*PtrV)
		}
		return &n
	case *StructV:
		n := &StructV{T: x.T}
		for _, f := range x.F {
			n.F = append(n.F, substVal(f, m, d))
		}
		return n
	case TupleV:
		var n TupleV
		for _, f := range x {
			n = append(n, substVal(f, m, d))
		}
		return n
	case *IfaceV:
		if x.H != nil && x.Dyn == nil {
			n := *x
			n.H = s(x.H)
			return &n
		}
	case *FuncV:
		if x.H != nil {
			n := *x
			n.H = s(x.H)
			return &n
		}
	}
	return v
}

func substState(st *State, m map[*Term]*Term) {
	for k, a := range st.heap {
		st.heap[k] = substVars(a, m, nil)
	}
	for _, o := range st.objs {
		o.C = substVars(o.C, m, nil)
	}
	for k, c := range st.cells {
		st.cells[k] = substVal(c, m, nil)
	}
	var pc []*Term
	seen := map[*Term]bool{}
	for _, p := range st.pc {
		q := substVars(p, m, nil)
		if q.Op == OAnd {
			for _, a := range q.Args {
				if !seen[a] {
					seen[a] = true
					pc = append(pc, a)
				}
			}
			continue
		}
		if q != True && !seen[q] {
			seen[q] = true
			pc = append(pc, q)
		}
	}
	st.pc = pc
	st.alloc = substVars(st.alloc, m, nil)
}

// usesRand: f may draw from the system's random source (directly or through a repository function).
func (e *Engine) usesRand(f *ssa.Function) bool {
	e.regMu.Lock()
	defer e.regMu.Unlock()
	if e.randUse == nil {
		e.randUse = map[*ssa.Function]bool{}
	}
	return e.usesRand1(f, map[*ssa.Function]bool{})
}

func (e *Engine) usesRand1(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if r, ok := e.randUse[f]; ok {
		return r
	}
	if seen[f] {
		return false
	}
	seen[f] = true
	res := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				switch g := (*op).(type) {
				case *ssa.Global:
					if g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" {
						res = true
					}
				case *ssa.Function:
					if strings.HasPrefix(funcKey(g), "crypto/rand.") || e.funcs[funcKey(g)] == g && e.usesRand1(g, seen) {
						res = true
					}
				}
			}
		}
	}
	if res || len(seen) == 1 {
		e.randUse[f] = res
	}
	return res
}
