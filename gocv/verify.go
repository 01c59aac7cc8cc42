package main

// Verification of one function against its contract, lemmas, and discharge of obligations.

import (
	"context"
	"fmt"
	"math/big"
	"os"
	"regexp"
	rdebug "runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var bgctx = context.Background()

type FuncResult struct {
	ID      string
	Obls    []*Obl
	Paths   int
	Secs    float64
	SolveS  float64
	Assumed []string
	Used    []string
	Inlined []string
	Skipped string
	Trusted string
	Err     string
}

const alloc0Min = 1000000

func (e *Engine) newExec(f *ssa.Function, ct *Contract) *Exec {
	ex := &Exec{eng: e, fn: f, ct: ct, sess: NewSession(), assumed: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}, loopIDs: map[string]int{}, closedFail: map[string]map[int]bool{}, params: map[string]Val{}}
	if e.initEx != nil {
		ex.nextID = e.initEx.nextID + 1
	}
	ex.alloc0 = VarR("alloc!0", big.NewInt(alloc0Min), nil)
	return ex
}

func (e *Engine) verifyFunc(ct *Contract) (res *FuncResult) {
	res = &FuncResult{ID: ct.ID()}
	start := time.Now()
	defer func() { res.Secs = time.Since(start).Seconds() }()
	if ct.Trusted != "" {
		res.Trusted = ct.Trusted
		return
	}
	f := e.funcs[ct.Key]
	if f == nil || len(f.Blocks) == 0 {
		name := shortKey(ct.Key)
		if name != "" && name[0] >= 'A' && name[0] <= 'Z' {
			res.Obls = append(res.Obls, &Obl{Fn: ct.ID(), Kind: "target", Name: "the function under contract exists", Status: "failed", Goal: False})
		} else {
			res.Skipped = "unexported function " + ct.Key + " does not exist any more; its callers are verified without its contract"
		}
		return
	}
	cases := ct.Cases
	if len(cases) == 0 {
		cases = []map[string]Clause{nil}
	}
	for _, bind := range cases {
		e.verifyCase(res, f, ct, bind)
	}
	return
}

func (e *Engine) verifyCase(res *FuncResult, f *ssa.Function, ct *Contract, bind map[string]Clause) {
	ex := e.newExec(f, ct)
	defer ex.sess.Close()
	defer func() {
		res.Obls = append(res.Obls, ex.obls...)
		for k := range ex.assumed {
			res.Assumed = append(res.Assumed, k)
		}
		for k := range ex.used {
			res.Used = append(res.Used, k)
		}
		for k := range ex.inlined {
			res.Inlined = append(res.Inlined, k)
		}
		sort.Strings(res.Assumed)
		sort.Strings(res.Used)
		sort.Strings(res.Inlined)
		res.Paths += ex.paths
		res.SolveS += ex.sess.secs
	}()
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch x := r.(type) {
			case unsupported:
				msg = x.msg
			case specErr:
				msg = "contract: " + x.msg
			default:
				msg = fmt.Sprintf("engine: %v", r)
				if os.Getenv("GOCV_STACK") != "" {
					rdebug.PrintStack()
				}
			}
			if os.Getenv("GOCV_STACK") == "2" {
				rdebug.PrintStack()
			}
			res.Err = msg
			ex.obls = append(ex.obls, &Obl{Fn: ct.ID(), Kind: "reach", Name: "every construct is within the verifier's reach: " + msg, Status: "failed", Goal: False, Pos: ex.where()})
		}
	}()
	ex.deadline = time.Now().Add(ex.symLimit())
	st := &State{heap: map[string]*Term{}, objs: map[int]*Obj{}, cells: map[int]Val{}, maps: map[int]*MapV{}, alloc: ex.alloc0}
	var args []Val
	for i, p := range f.Params {
		v := ex.freshVal(st, p.Name(), p.Type(), false)
		if c, ok := bind[p.Name()]; ok {
			v = ex.specEval(&specEnv{ex: ex, st: st, vars: map[string]SV{}, fn: f}, c)
		}
		if i == 0 && f.Signature.Recv() != nil {
			if pp, ok := v.(*PtrV); ok && pp.Ref != nil {
				ex.assume(st, Ge(pp.Ref, One))
			}
			ex.params["recv"] = v
		}
		args = append(args, v)
		ex.params[p.Name()] = v
	}
	env := ex.paramEnv(f, args, st, nil)
	env.old = nil
	for _, r := range ct.Req {
		ex.assume(st, ex.specEval(env, r))
	}
	for _, r := range ct.Assume {
		ex.assumed["in "+ct.ID()+": "+r.Text] = true
		ex.assume(st, ex.specEval(env, r))
	}
	for _, m := range ct.Mods2 {
		if k, ok := ex.specEval(env, m[1]).Int64(); ok && k > 1 && k <= 64 {
			ex.mods = append(ex.mods, modSplit{ex.specEval(env, m[0]), k, m[0].All})
		}
	}
	ex.old = st.clone()
	// vacuity
	if len(ct.Req)+len(ct.Assume) > 0 {
		p := NewPrinter()
		scr := p.Script(st.pc, False, nil)
		r := runSolver(bgctx, solvers[0], scr, 700*time.Millisecond)
		o := &Obl{Fn: ct.ID(), Kind: "vacuity", Name: "preconditions are satisfiable", Goal: True, Status: "discharged", By: solvers[0].name + " (not refuted)", Secs: r.secs}
		if r.status == "unsat" {
			o.Status, o.Script = "failed", scr
			if d := os.Getenv("GOCV_DUMP"); d != "" {
				os.MkdirAll(d, 0o755)
				os.WriteFile(d+"/vac.smt2", []byte(scr), 0o644)
			}
		}
		ex.obls = append(ex.obls, o)
	}
	ex.runFunc(f, args, nil, st, nil, func(st2 *State, rs []Val) {
		ex.paths++
		if ex.paths > 3000 {
			ex.unsup("too many paths")
		}
		env := ex.paramEnv(f, args, st2, ex.old)
		bindResults(env, f.Signature, rs)
		for _, c := range ct.Inst {
			ex.assume(st2, ex.instEval(env, c))
		}
		for _, c := range ct.Ens {
			n := c.Text
			if c.Name != "" {
				n = c.Name + ": " + n
			}
			ex.oblige(st2, "ensures", n, ex.specEval(env, c))
		}
	})
	if ex.paths == 0 {
		ex.obls = append(ex.obls, &Obl{Fn: ct.ID(), Kind: "vacuity", Name: "some execution returns", Status: "failed", Goal: False})
	}
	return
}

func (ex *Exec) symLimit() time.Duration {
	if ex.ct != nil && ex.ct.Timeout > 0 {
		return time.Duration(ex.ct.Timeout) * 6 * time.Second
	}
	return 120 * time.Second
}

// discharge sends every open obligation to the solvers.
func (e *Engine) discharge(res *FuncResult, ct *Contract, timeout time.Duration) {
	if ct != nil && ct.Timeout > 0 {
		timeout = time.Duration(ct.Timeout) * time.Second
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan struct{}, 8)
	fails := 0
	for _, o := range res.Obls {
		if o.Status != "" {
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(o *Obl) {
			defer wg.Done()
			defer func() { <-sem }()
			mu.Lock()
			skip := fails >= 6
			mu.Unlock()
			if skip {
				o.Status, o.Out = "failed", "not attempted after repeated failures in this function"
				return
			}
			p := NewPrinter()
			if ct != nil {
				p.fuel = ct.Unfold
			}
			o.Script = func() (s string) {
				defer func() {
					if r := recover(); r != nil {
						o.Out = fmt.Sprint("printing: ", r)
					}
				}()
				return p.Script(o.PC, o.Goal, e.lemmaAxiomsBefore(p, append(append([]*Term{}, o.PC...), o.Goal), e.scopeOf(ct)))
			}()
			if o.Script == "" {
				o.Status = "failed"
			} else {
				var r solveRes
				var total float64
				bits := hasBits(o.Goal)
				if bits {
					// bit operations: the bit-vector translation first
					if r, total = e.bvTry(o, timeout); r.status == "unsat" {
						r.by += " (bit-vectors)"
					}
				}
				if r.status != "unsat" {
					var t2 float64
					r, t2 = prove(o.Script, minDur(timeout, 2*time.Second))
					total += t2
				}
				o.Secs = total
				o.By = r.by
				if r.status == "unsat" {
					o.Status = "discharged"
				} else if q, secs := e.bvTry2(o, timeout, bits); q.status == "unsat" {
					o.Status, o.By = "discharged", q.by+" (bit-vectors)"
					o.Secs += secs
				} else if by, secs, ok := e.proveRewrite(o, timeout, e.scopeOf(ct)); ok {
					o.Status, o.By = "discharged", by
					o.Secs += secs
				} else if by, secs, ok := e.proveMods(o, timeout, e.scopeOf(ct)); ok {
					o.Status, o.By = "discharged", by
					o.Secs += secs
				} else if by, secs, ok := e.proveLight(o, timeout, e.scopeOf(ct)); ok {
					o.Status, o.By = "discharged", by
					o.Secs += secs
				} else if ok, secs, n := e.proveSplit(o.PC, o.Goal, p.fuel, 2*timeout, e.scopeOf(ct)); ok {
					o.Status, o.By = "discharged", fmt.Sprintf("%s (%d cases)", solvers[0].name, n)
					o.Secs += secs
				} else {
					o.Secs += secs
					o.Status = "failed"
					if r.status != "sat" && timeout > 2*time.Second {
						r, total = prove(o.Script, timeout)
						o.Secs += total
						if r.status == "unsat" {
							o.Status, o.By = "discharged", r.by
						}
					}
					o.Out = r.status + ": " + clip(r.out, 2000)
				}
			}
			mu.Lock()
			if os.Getenv("GOCV_SLOW") != "" && o.Secs > 4 {
				fmt.Printf("SLOW %.1fs %s %s %s %s\n", o.Secs, o.Status, o.By, o.Name, clip(o.Goal.String(), 200))
			}
			res.SolveS += o.Secs
			if o.Status == "failed" {
				fails++
			}
			mu.Unlock()
			if d := os.Getenv("GOCV_DUMP"); d != "" && o.Status == "failed" {
				mu.Lock()
				dumpN++
				n := dumpN
				mu.Unlock()
				os.MkdirAll(d, 0o755)
				os.WriteFile(fmt.Sprintf("%s/%03d.smt2", d, n), []byte("; "+o.Fn+" "+o.Kind+" "+o.Name+" "+o.Pos+"\n"+o.Script), 0o644)
				var sb strings.Builder
				for _, t := range o.PC {
					sb.WriteString(t.String() + "\n")
				}
				sb.WriteString("GOAL " + o.Goal.String() + "\n")
				os.WriteFile(fmt.Sprintf("%s/%03d.txt", d, n), []byte(sb.String()), 0o644)
			}
			if o.Status == "discharged" {
				o.Script = ""
				o.PC = nil
			}
		}(o)
	}
	wg.Wait()
}

// proveLight retries an obligation with fewer facts in the script (definitions folded, no lemmas,
// no comprehension unfolding): a proof from fewer facts is a proof.
func (e *Engine) proveLight(o *Obl, timeout time.Duration, sc scope) (string, float64, bool) {
	total := 0.0
	for _, v := range []struct {
		defs, lem bool
		tail      int
	}{{false, false, 0}, {false, true, 0}, {true, false, 0}, {false, false, 10}} {
		pc := o.PC
		if v.tail > 0 {
			if len(pc) <= v.tail {
				continue
			}
			pc = pc[len(pc)-v.tail:]
		}
		p := NewPrinter()
		p.noDefs = !v.defs
		p.fuel = 0
		script := func() (s string) {
			defer func() {
				if recover() != nil {
					s = ""
				}
			}()
			var lem []string
			if v.lem {
				lem = e.lemmaAxiomsBefore(p, append(append([]*Term{}, pc...), o.Goal), sc)
			}
			return p.Script(pc, o.Goal, lem)
		}()
		if d := os.Getenv("GOCV_DUMP"); d != "" {
			os.WriteFile(fmt.Sprintf("%s/light%v%v%d.smt2", d, v.defs, v.lem, v.tail), []byte(script), 0o644)
		}
		if script == "" || script == o.Script {
			continue
		}
		r, t := prove(script, minDur(timeout, 3*time.Second))
		total += t
		if r.status == "unsat" {
			return r.by, total, true
		}
	}
	return "", total, false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- lemmas

func (e *Engine) lemmaEnv(l *Lemma, mkv func(i int) *Term) *specEnv {
	env := &specEnv{ex: &Exec{eng: e, sess: &Session{dead: true, cache: map[string]bool{}}}, vars: map[string]SV{}, st: &State{heap: map[string]*Term{}, objs: map[int]*Obj{}, alloc: Zero}}
	for i, v := range l.Vars {
		env.vars[v] = SV{V: mkv(i)}
	}
	return env
}

// bounds: the range conditions of bounded parameters.
func (l *Lemma) bounds(v func(i int) *Term) []*Term {
	var out []*Term
	for i, b := range l.Bits {
		if b > 0 {
			out = append(out, Ge0(v(i)), Lt(v(i), IntB(new(big.Int).Lsh(bigOne, uint(b)))))
		}
	}
	return out
}

// lemmaAxiomsBefore prints the lemmas whose symbols occur in the terms, as quantified axioms.
// scope says which lemmas a proof may use: the earlier ones of the same contract file, and those
// a lemma reserves for it.
type scope struct {
	n    int
	file string
	name string
}

func (e *Engine) scopeOf(ct *Contract) scope {
	if ct == nil {
		return scope{n: len(e.lemmas)}
	}
	return scope{n: len(e.lemmas), file: ct.File, name: ct.ID()}
}

func (sc scope) sees(l *Lemma) bool {
	for _, o := range l.Only {
		if o == sc.name {
			return true
		}
	}
	return len(l.Only) == 0 && l.File == sc.file
}

func symbols(ts []*Term) map[string]bool {
	syms := map[string]bool{}
	collect(ts, func(t *Term) {
		switch t.Op {
		case OApp:
			syms[t.Name] = true
		case OVar, OConst, OLin, OTrue, OFalse, OBVar:
		default:
			syms["$"+opNames[t.Op]] = true
		}
	})
	return syms
}

func (e *Engine) lemmaAxiomsBefore(p *Printer, ts []*Term, sc scope) []string {
	n := sc.n
	if n == 0 || p.light {
		return nil
	}
	syms := symbols(ts)
	var out []string
	used := map[int]bool{}
	for again := true; again; {
		again = false
		for i, l := range e.lemmas[:n] {
			if used[i] || len(l.Trig) == 0 || !sc.sees(l) {
				continue
			}
			env := e.lemmaEnv(l, func(i int) *Term {
				return mk(Term{Op: OVar, Name: "\x00lv" + l.Vars[i], Sort: l.Sorts[i]})
			})
			var trigs []*Term
			for _, t := range l.Trig {
				trigs = append(trigs, env.term(t.Expr))
			}
			ok := true
			for s := range symbols(trigs) {
				if !syms[s] && !strings.HasPrefix(s, "$") {
					ok = false
				}
			}
			if !ok {
				continue
			}
			used[i] = true
			e.noteLemma(i)
			req := l.bounds(func(i int) *Term {
				return mk(Term{Op: OVar, Name: "\x00lv" + l.Vars[i], Sort: l.Sorts[i]})
			})
			for _, r := range l.Req {
				req = append(req, env.term(r.Expr))
			}
			concl := env.term(l.Concl.Expr)
			body := Implies(And(req...), concl)
			for s := range symbols([]*Term{body}) {
				if !syms[s] {
					syms[s] = true
					again = true
				}
			}
			save := p.noName
			p.noName = true
			var bs []string
			for j, v := range l.Vars {
				p.useSort(l.Sorts[j])
				bs = append(bs, fmt.Sprintf("(lv%s %s)", v, sortName(l.Sorts[j])))
			}
			bt := p.T(body, nil)
			var pt []string
			for _, t := range trigs {
				pt = append(pt, p.T(t, nil))
			}
			p.noName = save
			if len(bs) == 0 {
				out = append(out, "(assert "+bt+")")
				continue
			}
			out = append(out, fmt.Sprintf("(assert (forall (%s) (! %s :pattern (%s))))", strings.Join(bs, " "), bt, strings.Join(pt, " ")))
		}
	}
	return out
}

// proveLemma discharges one lemma (optionally by induction on an integer variable).
func (e *Engine) proveLemma(idx int, timeout time.Duration) *FuncResult {
	l := e.lemmas[idx]
	res := &FuncResult{ID: "lemma " + l.Name}
	sc := scope{n: idx, file: l.File, name: l.Name}
	if l.Axiom != "" {
		res.Trusted = l.Axiom
		return res
	}
	start := time.Now()
	defer func() { res.Secs = time.Since(start).Seconds() }()
	defer func() {
		if r := recover(); r != nil {
			res.Obls = append(res.Obls, &Obl{Fn: res.ID, Kind: "lemma", Name: fmt.Sprint(r), Status: "failed", Goal: False})
		}
	}()
	vars := make([]*Term, len(l.Vars))
	for i, v := range l.Vars {
		if l.Bits[i] > 0 {
			vars[i] = VarR(freshName("lm_"+v), new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(l.Bits[i])), bigOne))
			continue
		}
		vars[i] = Fresh("lm_"+v, l.Sorts[i])
	}
	eval := func(vs []*Term) (*Term, *Term) {
		env := e.lemmaEnv(l, func(i int) *Term { return vs[i] })
		var req []*Term
		for _, r := range l.Req {
			req = append(req, env.term(r.Expr))
		}
		return And(req...), env.term(l.Concl.Expr)
	}
	req, concl := eval(vars)
	if l.Timeout > 0 {
		timeout = time.Duration(l.Timeout) * time.Second / 4
	}
	var mods []modSplit
	for _, m := range l.Mods {
		env := e.lemmaEnv(l, func(i int) *Term { return vars[i] })
		if k, ok := env.term(m[1].Expr).Int64(); ok && k > 1 && k <= 64 {
			mods = append(mods, modSplit{env.term(m[0].Expr), k, m[0].All})
		}
	}
	var insts []*Term
	for _, c := range l.Inst {
		env := e.lemmaEnv(l, func(i int) *Term { return vars[i] })
		insts = append(insts, env.lemmaInst(c, idx))
	}
	add := func(name string, pc []*Term, goal *Term) {
		pc = append(pc, insts...)
		p := NewPrinter()
		p.fuel = 3
		o := &Obl{Fn: res.ID, Kind: "lemma", Name: name, PC: pc, Goal: goal}
		if goal == True {
			o.Status, o.By = "discharged", "gocv-simplifier"
		} else if l.BV {
			r, total := bvProve(pc, goal, 4*timeout)
			o.Secs, o.By = total, r.by+" (bit-vectors)"
			res.SolveS += total
			o.Status = "discharged"
			if r.status != "unsat" {
				o.Status, o.Out = "failed", r.status+": "+clip(r.out, 500)
			}
		} else {
			o.Script = p.Script(pc, goal, e.lemmaAxiomsBefore(p, append(append([]*Term{}, pc...), goal), sc))
			r, total := prove(o.Script, timeout/2)
			o.Secs, o.By = total, r.by
			res.SolveS += total
			o.Mods = mods
			if r.status != "unsat" {
				if by, secs, ok := e.proveRewrite(o, timeout, sc); ok {
					r.status, o.By = "unsat", by
					o.Secs += secs
				}
			}
			if r.status != "unsat" && len(mods) > 0 {
				if by, secs, ok := e.proveMods(o, timeout, sc); ok {
					r.status, o.By = "unsat", by
					o.Secs += secs
				}
			}
			if r.status != "unsat" {
				if by, secs, ok := e.proveLight(o, timeout, sc); ok {
					r.status, o.By = "unsat", by
					o.Secs += secs
				}
			}
			if r.status != "unsat" {
				if ok, secs, n := e.proveSplit(pc, goal, 3, 2*timeout, sc); ok {
					r.status, o.By = "unsat", fmt.Sprintf("%s (%d cases)", solvers[0].name, n)
					o.Secs += secs
				}
			}
			if r.status == "unsat" {
				o.Status = "discharged"
				o.Script = ""
			} else {
				o.Status, o.Out = "failed", r.status+": "+clip(r.out, 500)
			}
		}
		res.Obls = append(res.Obls, o)
		if d := os.Getenv("GOCV_DUMP"); d != "" && o.Status == "failed" {
			os.MkdirAll(d, 0o755)
			os.WriteFile(fmt.Sprintf("%s/lemma_%s.smt2", d, l.Name), []byte(o.Script), 0o644)
		}
	}
	if l.Ind == "" {
		add(l.Name, []*Term{req}, concl)
		return res
	}
	// induction v [from expr] [with x = expr, y = expr]: the instance of the hypothesis used
	ind := strings.SplitN(l.Ind, " with ", 2)
	parts := strings.SplitN(ind[0], " from ", 2)
	vi := -1
	for i, v := range l.Vars {
		if v == strings.TrimSpace(parts[0]) {
			vi = i
		}
	}
	if vi < 0 {
		panic("unknown induction variable " + l.Ind)
	}
	lo := Zero
	if len(parts) == 2 {
		c, err := mkClause(parts[1])
		if err != nil {
			panic(err)
		}
		lo = e.lemmaEnv(l, func(i int) *Term { return vars[i] }).term(c.Expr)
	}
	n := vars[vi]
	add(l.Name+" (base)", []*Term{req, Le(n, lo)}, concl)
	prev := append([]*Term{}, vars...)
	prev[vi] = AddK(n, -1)
	if len(ind) == 2 {
		for _, as := range splitTop(ind[1]) {
			kv := strings.SplitN(as, "=", 2)
			c, err := mkClause(strings.TrimSpace(kv[1]))
			if err != nil {
				panic(err)
			}
			wi := -1
			for i, v := range l.Vars {
				if v == strings.TrimSpace(kv[0]) {
					wi = i
				}
			}
			if wi < 0 || wi == vi {
				panic("unknown variable " + kv[0])
			}
			prev[wi] = e.lemmaEnv(l, func(i int) *Term { return vars[i] }).term(c.Expr)
		}
	}
	r2, c2 := eval(prev)
	add(l.Name+" (step)", []*Term{req, Gt(n, lo), Implies(r2, c2)}, concl)
	return res
}

// instEval evaluates a lemma instance in a program environment.
func (ex *Exec) instEval(env *specEnv, c Clause) *Term {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				ex.unsup("contract: %s", se.msg)
			}
			panic(r)
		}
	}()
	return env.lemmaInst(c, len(ex.eng.lemmas))
}

var reProps = regexp.MustCompile(`C\d+`)

// proveMods goes by the residues of the declared terms: t = m*k + r for a fresh k, one proof per r.
func (e *Engine) proveMods(o *Obl, timeout time.Duration, sc scope) (string, float64, bool) {
	start := time.Now()
	if len(o.Mods) == 0 {
		return "", 0, false
	}
	by := ""
	n := 0
	for _, g := range splitTail(o.Goal) {
		b, k, ok := e.proveMods1(o.PC, g, o.Mods, timeout, sc)
		n += k
		if !ok {
			return "", time.Since(start).Seconds(), false
		}
		if b != "" {
			by = b
		}
	}
	return fmt.Sprintf("%s (%d residues)", by, n), time.Since(start).Seconds(), true
}

// splitTail takes the last indices out of a quantified goal over len(s)+c elements.
func splitTail(g *Term) []*Term {
	if g.Op != OForall || g.maxBV > 0 {
		return []*Term{g}
	}
	hi := g.Args[1]
	if hi.Op != OLin || len(hi.Args) != 1 || hi.Coef[0].Cmp(bigOne) != 0 || hi.Args[0].Op != OLen || hi.K.Sign() <= 0 || hi.K.BitLen() > 3 {
		return []*Term{g}
	}
	out := []*Term{Forall(g.Args[0], hi.Args[0], g.Args[2])}
	for j := int64(0); j < hi.K.Int64(); j++ {
		out = append(out, instantiate(g.Args[2], AddK(hi.Args[0], j)))
	}
	return out
}

// lenEq solves facts len(x) == e.
func lenEq(pc []*Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, p := range pc {
		if p.Op != OEq || p.Args[0].Sort != SInt {
			continue
		}
		d := Sub(p.Args[0], p.Args[1])
		if d.Op != OLin {
			continue
		}
		for i, a := range d.Args {
			if a.Op != OLen || d.Coef[i].CmpAbs(bigOne) != 0 || m[a] != nil {
				continue
			}
			rest := Sub(d, Scale(a, d.Coef[i]))
			if d.Coef[i].Sign() > 0 {
				rest = Scale(rest, big.NewInt(-1))
			}
			rest = substVars(rest, m, nil)
			if !occurs(rest, func(x *Term) bool { return x == a }) {
				m[a] = rest
				break
			}
		}
	}
	return m
}

func (e *Engine) proveMods1(pc0 []*Term, goal *Term, mods []modSplit, timeout time.Duration, sc scope) (by string, total int, ok bool) {
	for _, p := range pc0 {
		if p == goal {
			return "", 0, true
		}
	}
	var ms []modSplit
	seen := map[*Term]bool{}
	pick := func(all []*Term, vars bool) {
		for _, m := range mods {
			hit := false
			collect(all, func(x *Term) { hit = hit || x == m.t })
			if hit && !seen[m.t] && (!vars || m.t.Op == OVar) {
				ms = append(ms, m)
				seen[m.t] = true
			}
		}
	}
	pick([]*Term{goal}, true)
	if len(ms) == 0 {
		pick([]*Term{goal}, false)
	}
	if len(ms) == 0 {
		pick(pc0, true)
	}
	if len(ms) == 0 {
		pick(pc0, false)
	}
	if len(ms) == 0 || len(ms) > 2 {
		return "", 0, false
	}
	n := int64(1)
	for _, m := range ms {
		n *= m.m
	}
	for _, m := range ms {
		if !m.all {
			continue
		}
		p := NewPrinter()
		p.fuel = 0
		if q, _ := prove(p.Script(pc0, And(Ge0(m.t), Lt(m.t, Int(m.m))), nil), timeout); q.status != "unsat" {
			return "", 0, false
		}
	}
	for c := int64(0); c < n; c++ {
		sub := map[*Term]*Term{}
		var pc []*Term
		r := c
		for _, m := range ms {
			k := VarR(freshName("k"), new(big.Int), nil)
			v := AddK(Scale(k, big.NewInt(m.m)), r%m.m)
			if m.all {
				v = Int(r % m.m)
			}
			r /= m.m
			sub[m.t] = v
			if m.t.Op != OVar {
				pc = append(pc, Eq(m.t, v))
			}
		}
		g := substVars(goal, sub, nil)
		dead := false
		for _, p := range pc0 {
			pc = append(pc, substVars(p, sub, nil))
		}
		if lm := lenEq(pc); len(lm) > 0 {
			g = substVars(g, lm, nil)
			var np []*Term
			for _, p := range pc {
				if q := substVars(p, lm, nil); q != True {
					np = append(np, q)
				}
			}
			for a, b := range lm {
				np = append(np, Eq(a, b))
			}
			pc = np
		}
		if g == True {
			continue
		}
		for _, p := range pc {
			dead = dead || p == False
		}
		if dead {
			continue
		}
		total++
		p := NewPrinter()
		p.fuel = 0
		q, _ := prove(p.Script(pc, g, nil), minDur(timeout, 3*time.Second))
		if q.status != "unsat" && hasBits(g) {
			q, _ = e.bvTry(&Obl{PC: pc, Goal: g}, timeout)
		}
		if q.status != "unsat" {
			if os.Getenv("GOCV_MOD") != "" {
				fmt.Println("MODSLOW", c, g)
			}
			if ok, _, _ := e.proveSplit(pc, g, 0, timeout, sc); !ok {
				if os.Getenv("GOCV_MOD") != "" {
					fmt.Println("MODFAIL", c, g)
					for _, p := range pc {
						fmt.Println("  PC", p)
					}
				}
				return "", total, false
			}
			q.by = "split"
		}
		by = q.by
	}
	return by, total, true
}
