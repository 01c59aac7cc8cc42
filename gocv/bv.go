package main

// Bit-vector back end for lemmas over bounded integers and bit operations: the statement is
// translated to bit-vectors wide enough that no checked operand can wrap (interval analysis).

import (
	"fmt"
	"math/big"
	"os"
	"strings"
	"time"
)

type bvPrinter struct {
	w     uint
	need  uint // widest operand seen in the sizing pass
	names map[*Term]string
	decls []string
	sides []string
	n     int
}

type bvFail string

func (p *bvPrinter) chk(t *Term) {
	lo, hi := Range(t)
	if lo == nil || hi == nil {
		panic(bvFail("no range for " + clip(t.String(), 80)))
	}
	n := uint(hi.BitLen())
	if m := uint(lo.BitLen()); m > n {
		n = m
	}
	if n+2 > p.need {
		p.need = n + 2
	}
}

func (p *bvPrinter) nonneg(t *Term) {
	p.chk(t)
	if !ge0(t) {
		// not visible from the interval: becomes part of what is proved
		p.sides = append(p.sides, "(bvsge "+p.T(t)+" "+p.k(new(big.Int))+")")
	}
}

func (p *bvPrinter) k(k *big.Int) string {
	m := new(big.Int).Mod(k, new(big.Int).Lsh(bigOne, p.w))
	return fmt.Sprintf("(_ bv%s %d)", m, p.w)
}

func (p *bvPrinter) T(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	s := p.t0(t)
	if len(t.Args) > 0 {
		p.n++
		n := fmt.Sprintf("n%d", p.n)
		srt := fmt.Sprintf("(_ BitVec %d)", p.w)
		if t.Sort == SBool {
			srt = "Bool"
		}
		p.decls = append(p.decls, fmt.Sprintf("(define-fun %s () %s %s)", n, srt, s))
		s = n
	}
	p.names[t] = s
	return s
}

func (p *bvPrinter) bin(op string, t *Term) string {
	s := p.T(t.Args[0])
	for _, a := range t.Args[1:] {
		s = "(" + op + " " + s + " " + p.T(a) + ")"
	}
	return s
}

func (p *bvPrinter) t0(t *Term) string {
	switch t.Op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OConst:
		p.chk(t)
		return p.k(t.K)
	case OVar:
		if t.Sort != SInt {
			panic(bvFail("variable of sort " + t.Sort.Name))
		}
		p.chk(t)
		lo, hi := Range(t)
		p.n++
		n := fmt.Sprintf("v%d", p.n)
		p.decls = append(p.decls, fmt.Sprintf("(declare-const %s (_ BitVec %d))", n, p.w),
			fmt.Sprintf("(assert (and (bvsle %s %s) (bvsle %s %s)))", p.k(lo), n, n, p.k(hi)))
		return n
	case OLin:
		s := p.k(t.K)
		for i, a := range t.Args {
			x := p.T(a)
			if t.Coef[i].Cmp(bigOne) != 0 {
				x = "(bvmul " + p.k(t.Coef[i]) + " " + x + ")"
			}
			s = "(bvadd " + s + " " + x + ")"
		}
		return s
	case OMul:
		return p.bin("bvmul", t)
	case ODiv, OMod:
		d := t.Args[1]
		if !d.isConst() || d.K.Sign() <= 0 {
			panic(bvFail("division by a non-constant"))
		}
		p.chk(d)
		k := uint(d.K.BitLen() - 1)
		if new(big.Int).Lsh(bigOne, k).Cmp(d.K) == 0 {
			p.chk(t.Args[0]) // floor division and Euclidean remainder by a power of two, any sign
			if t.Op == ODiv {
				return fmt.Sprintf("(bvashr %s %s)", p.T(t.Args[0]), p.k(big.NewInt(int64(k))))
			}
			return fmt.Sprintf("(bvand %s %s)", p.T(t.Args[0]), p.k(new(big.Int).Sub(d.K, bigOne)))
		}
		p.nonneg(t.Args[0])
		if t.Op == ODiv {
			return "(bvudiv " + p.T(t.Args[0]) + " " + p.k(d.K) + ")"
		}
		return "(bvurem " + p.T(t.Args[0]) + " " + p.k(d.K) + ")"
	case OApp:
		op := map[string]string{"bxor": "bvxor", "band": "bvand", "bor": "bvor"}[t.Name]
		if op == "" {
			if d := defOf(t.Name); d != nil && d.Body != nil && !d.Rec {
				m := map[*Term]*Term{}
				for i, v := range d.pvars {
					m[v] = t.Args[i]
				}
				return p.T(substVars(d.Body, m, nil))
			}
			panic(bvFail("function " + t.Name))
		}
		p.nonneg(t.Args[0])
		p.nonneg(t.Args[1])
		return p.bin(op, t)
	case OIte:
		return "(ite " + p.T(t.Args[0]) + " " + p.T(t.Args[1]) + " " + p.T(t.Args[2]) + ")"
	case OGe0:
		p.chk(t.Args[0])
		return "(bvsge " + p.T(t.Args[0]) + " " + p.k(new(big.Int)) + ")"
	case OEq:
		for _, a := range t.Args {
			if a.Sort == SInt {
				p.chk(a)
			} else if a.Sort != SBool {
				panic(bvFail("equality of " + a.Sort.Name))
			}
		}
		return "(= " + p.T(t.Args[0]) + " " + p.T(t.Args[1]) + ")"
	case OAnd, OOr:
		op := "and"
		if t.Op == OOr {
			op = "or"
		}
		var xs []string
		for _, a := range t.Args {
			xs = append(xs, p.T(a))
		}
		return "(" + op + " " + strings.Join(xs, " ") + ")"
	case ONot:
		return "(not " + p.T(t.Args[0]) + ")"
	}
	panic(bvFail("operator " + opNames[t.Op]))
}

// bvProve discharges pc ==> goal over bit-vectors.
func bvProve(pc []*Term, goal *Term, timeout time.Duration) (r solveRes, secs float64) {
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(bvFail); ok {
				r = solveRes{status: "error", out: "bit-vector translation: " + string(f)}
				return
			}
			panic(e)
		}
	}()
	memo := map[*Term]*Term{}
	goal = expandDefs(goal, memo)
	var pc2 []*Term
	for _, t := range pc {
		pc2 = append(pc2, expandDefs(t, memo))
	}
	pc = pc2
	w := uint(64)
	var script string
	for pass := 0; pass < 2; pass++ {
		p := &bvPrinter{w: w, names: map[*Term]string{}}
		var as []string
		for _, t := range pc {
			as = append(as, "(assert "+p.T(t)+")")
		}
		g := p.T(goal)
		as = append(as, "(assert (not (and true "+strings.Join(p.sides, " ")+" "+g+")))")
		script = "(set-logic QF_BV)\n" + strings.Join(p.decls, "\n") + "\n" + strings.Join(as, "\n") + "\n(check-sat)\n"
		w = p.need
		if pass == 0 && w > 512 {
			panic(bvFail("operands too wide"))
		}
	}
	if r, secs = prove(script, timeout); r.status != "unsat" && dumpDir != "" {
		dumpN++
		writeDump(fmt.Sprintf("bv%03d.smt2", dumpN), script)
	}
	return r, secs
}

// bvTry discharges an obligation about bits: integer subterms the bit-vector translation does not
// know become variables, with ranges proved from the facts; facts it cannot express are dropped.
func (e *Engine) bvTry(o *Obl, timeout time.Duration) (r solveRes, secs float64) {
	start := time.Now()
	defer func() { secs = time.Since(start).Seconds() }()
	memo := map[*Term]*Term{}
	goal := expandDefs(unfoldRec(o.Goal), memo)
	bits := false
	collect([]*Term{goal}, func(t *Term) {
		bits = bits || t.Op == OApp && (t.Name == "bxor" || t.Name == "bor" || t.Name == "band") || t.Op == OMod && t.Args[1].isConst() && t.Args[1].K.BitLen() < 70
	})
	if !bits {
		return
	}
	am := map[*Term]*Term{}
	nomore := false
	var abs func(t *Term) *Term
	abs = func(t *Term) *Term {
		if r, ok := am[t]; ok {
			return r
		}
		var r *Term
		switch t.Op {
		case OConst, OTrue, OFalse:
			r = t
		case OLin, OIte, OGe0, OEq, OAnd, OOr, ONot, OMul:
			r = remakeAbs(t, abs)
		case ODiv, OMod:
			if t.Args[1].isConst() {
				r = remakeAbs(t, abs)
			}
		case OApp:
			if t.Name == "bxor" || t.Name == "bor" || t.Name == "band" {
				r = remakeAbs(t, abs)
			}
		}
		if r == nil {
			if t.Sort != SInt || t.maxBV > 0 || nomore {
				panic(bvFail("cannot translate " + clip(t.String(), 80)))
			}
			lo, hi := Range(t)
			if lo == nil || hi == nil || lo.Sign() < 0 || hi.BitLen() > 5 && hi.BitLen() <= 8 {
				for _, k := range []uint{5, 8, 16, 32, 64} {
					if time.Since(start) > 8*time.Second {
						break
					}
					h := new(big.Int).Lsh(bigOne, k)
					if lo != nil && lo.Sign() >= 0 && hi != nil && h.Cmp(hi) > 0 {
						break
					}
					if rangeHolds(o.PC, t, And(Ge0(t), Lt(t, IntB(h)))) {
						lo, hi = new(big.Int), h.Sub(h, bigOne)
						break
					}
				}
				if lo == nil || hi == nil {
					panic(bvFail("no range for " + clip(t.String(), 80)))
				}
			}
			r = VarR(freshName("bv"), lo, hi)
		}
		am[t] = r
		return r
	}
	try := func(t *Term) (g *Term, msg string) {
		defer func() {
			if x := recover(); x != nil {
				if f, ok := x.(bvFail); ok {
					g, msg = nil, string(f)
					return
				}
				panic(x)
			}
		}()
		return abs(t), ""
	}
	g, msg := try(goal)
	if g == nil {
		if os.Getenv("GOCV_BV") != "" {
			fmt.Println("BV", msg)
		}
		return solveRes{status: "error", out: msg}, 0
	}
	nomore = true
	var pc []*Term
	for _, t := range o.PC {
		if t.Sort != SBool || t.maxBV > 0 {
			continue
		}
		if q, _ := try(expandDefs(t, memo)); q != nil {
			pc = append(pc, q)
		}
	}
	r, _ = bvProve(pc, g, timeout)
	if os.Getenv("GOCV_BV") != "" {
		fmt.Println("BV", r.status, clip(r.out, 200), g)
	}
	return r, 0
}

func remakeAbs(t *Term, f func(*Term) *Term) *Term {
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = f(a)
	}
	return remake(t, args, nil)
}

// unfoldRec replaces recursive applications by their body where the body's outermost case is decided.
func unfoldRec(t *Term) *Term {
	m := map[*Term]*Term{}
	collect([]*Term{t}, func(x *Term) {
		if x.Op == OApp && x.maxBV == 0 && x.Sort == SInt {
			if d := defOf(x.Name); d != nil && d.Rec && d.Body != nil {
				s := map[*Term]*Term{}
				for i, v := range d.pvars {
					s[v] = x.Args[i]
				}
				if b := substVars(d.Body, s, nil); b.Op != OIte {
					m[x] = b
				}
			}
		}
	})
	if len(m) == 0 {
		return t
	}
	return renorm(t, m, nil, map[*Term]*Term{})
}

// rangeHolds proves a range fact, first from the quantifier-free facts that mention the term.
func rangeHolds(pc []*Term, t, g *Term) bool {
	var near []*Term
	for _, f := range pc {
		has, q := false, false
		collect([]*Term{f}, func(x *Term) {
			has = has || x == t
			q = q || x.Op == OForall || x.Op == OExists
		})
		if has && !q || !q && f.Op == OGe0 {
			near = append(near, f)
		}
	}
	for _, fs := range [][]*Term{near, pc} {
		if q := runSolver(bgctx, solvers[0], NewPrinter().Script(fs, g, nil), time.Second); q.status == "unsat" {
			return true
		}
	}
	return false
}

// hasBits reports whether a bit operation that was not turned into arithmetic occurs.
func hasBits(t *Term) bool {
	found := false
	collect([]*Term{t}, func(x *Term) {
		found = found || x.Op == OApp && (x.Name == "bxor" || x.Name == "bor" || x.Name == "band")
	})
	return found
}

func (e *Engine) bvTry2(o *Obl, timeout time.Duration, done bool) (solveRes, float64) {
	if done {
		return solveRes{}, 0
	}
	return e.bvTry(o, timeout)
}
