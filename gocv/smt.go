package main

// SMT-LIB printing and solver processes.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"hash/fnv"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

const preambleTpl = `
(declare-sort @S 0)
(declare-fun len@S (@S) Int)
(declare-fun get@S (@S Int) @E)
(declare-fun cat@S (@S @S) @S)
(declare-fun sub@S (@S Int Int) @S)
(declare-fun upd@S (@S Int @E) @S)
(declare-fun rep@S (Int @E) @S)
(declare-fun unit@S (@E) @S)
(declare-const empty@S @S)
(assert (= (len@S empty@S) 0))
(assert (forall ((s @S)) (! (and (>= (len@S s) 0) (=> (= (len@S s) 0) (= s empty@S))) :pattern ((len@S s)))))
(assert (forall ((x @E)) (! (and (= (len@S (unit@S x)) 1) (=> @G(x) (= (get@S (unit@S x) 0) x))) :pattern ((unit@S x)))))
(assert (forall ((a @S) (b @S)) (! (= (len@S (cat@S a b)) (+ (len@S a) (len@S b))) :pattern ((cat@S a b)))))
(assert (forall ((a @S) (b @S) (i Int)) (! (=> (and (<= 0 i) (< i (+ (len@S a) (len@S b)))) (= (get@S (cat@S a b) i) (ite (< i (len@S a)) (get@S a i) (get@S b (- i (len@S a)))))) :pattern ((get@S (cat@S a b) i)))))
(assert (forall ((s @S) (l Int) (h Int)) (! (=> (and (<= 0 l) (<= l h) (<= h (len@S s))) (= (len@S (sub@S s l h)) (- h l))) :pattern ((sub@S s l h)))))
(assert (forall ((s @S) (l Int) (h Int) (i Int)) (! (=> (and (<= 0 l) (<= h (len@S s)) (<= 0 i) (< i (- h l))) (= (get@S (sub@S s l h) i) (get@S s (+ l i)))) :pattern ((get@S (sub@S s l h) i)))))
(assert (forall ((s @S) (i Int) (v @E)) (! (= (len@S (upd@S s i v)) (len@S s)) :pattern ((upd@S s i v)))))
(assert (forall ((s @S) (i Int) (v @E) (j Int)) (! (=> (and (<= 0 j) (< j (len@S s)) @G(v)) (= (get@S (upd@S s i v) j) (ite (= i j) v (get@S s j)))) :pattern ((get@S (upd@S s i v) j)))))
(assert (forall ((n Int) (v @E)) (! (= (len@S (rep@S n v)) (ite (>= n 0) n 0)) :pattern ((rep@S n v)))))
(assert (forall ((n Int) (v @E) (j Int)) (! (=> (and (<= 0 j) (< j n) @G(v)) (= (get@S (rep@S n v) j) v)) :pattern ((get@S (rep@S n v) j)))))
`

func seqPreamble(s *Sort) string {
	p := strings.ReplaceAll(preambleTpl, "@S", s.Name)
	p = strings.ReplaceAll(p, "@E", s.Elem.Name)
	for _, v := range []string{"x", "v"} {
		g := "true"
		if s == SeqB {
			g = "(and (<= 0 " + v + ") (<= " + v + " 255))"
		}
		p = strings.ReplaceAll(p, "@G("+v+")", g)
	}
	if s == SeqB {
		p += "(assert (forall ((s SeqB) (i Int)) (! (and (<= 0 (getSeqB s i)) (<= (getSeqB s i) 255)) :pattern ((getSeqB s i)))))\n"
	}
	return p
}

// Printer turns a set of terms into one SMT-LIB script.
type Printer struct {
	decls    []string // declarations in order
	axioms   []string
	declared map[string]bool
	names    map[*Term]string // shared closed subterms
	lifted   map[string]string
	liftN    int
	light    bool // no seq axioms (pruning session)
	usesSeq  map[*Sort]bool
	ground   []*Term // ground axioms still to be added
	seenG    map[*Term]bool
	bigs     []*liftApp
	fuel     int
	noDefs   bool
	noName   bool
}

type liftApp struct {
	t    *Term
	key  string
	args []*Term
}

func NewPrinter() *Printer {
	return &Printer{declared: map[string]bool{}, names: map[*Term]string{}, lifted: map[string]string{}, usesSeq: map[*Sort]bool{}, seenG: map[*Term]bool{}, fuel: 2}
}

func guardB(s *Sort, eq string) string {
	if s == SeqB {
		return "(=> (and (<= 0 e) (<= e 255)) " + eq + ")"
	}
	return eq
}

func sortName(s *Sort) string { return s.Name }

func quoteSym(n string) string {
	ok := true
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!$.", c)) {
			ok = false
			break
		}
	}
	if ok && n != "" && !(n[0] >= '0' && n[0] <= '9') {
		return "v_" + n
	}
	return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(n) + "|"
}

func (p *Printer) useSort(s *Sort) {
	if s.Arr {
		p.useSort(s.Elem)
		return
	}
	if s.Seq {
		if s.Elem.Seq {
			p.useSort(s.Elem)
		}
		if !p.usesSeq[s] {
			p.usesSeq[s] = true
			if p.light {
				p.decls = append(p.decls, lightSeq(s))
			} else {
				p.decls = append(p.decls, seqPreamble(s))
			}
		}
	}
}
func lightSeq(s *Sort) string {
	var out []string
	for _, l := range strings.Split(seqPreamble(s), "\n") {
		if strings.HasPrefix(l, "(declare") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func (p *Printer) declare(name, decl string) {
	if !p.declared[name] {
		p.declared[name] = true
		p.decls = append(p.decls, decl)
	}
}

func intLit(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

// T prints t; env gives names of loose bound variables (innermost last).
func (p *Printer) T(t *Term, env []string) string {
	if t.maxBV == 0 {
		if n, ok := p.names[t]; ok {
			return n
		}
	}
	s := p.t0(t, env)
	if !p.noName && t.maxBV == 0 && len(s) > 60 && t.Sort != SBool {
		n := fmt.Sprintf("t!%d", t.ID)
		p.decls = append(p.decls, fmt.Sprintf("(define-fun %s () %s %s)", n, sortName(t.Sort), s))
		p.names[t] = n
		return n
	}
	return s
}

func (p *Printer) t0(t *Term, env []string) string {
	a := func(i int) string { return p.T(t.Args[i], env) }
	p.useSort(t.Sort)
	switch t.Op {
	case OConst:
		return intLit(t.K)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		if t.Name[0] == 0 {
			return t.Name[1:]
		}
		n := quoteSym(t.Name)
		if !p.declared[n] {
			p.declare(n, fmt.Sprintf("(declare-const %s %s)", n, sortName(t.Sort)))
			if t.Sort == SInt {
				l, h := Range(t)
				if l != nil {
					p.decls = append(p.decls, fmt.Sprintf("(assert (<= %s %s))", intLit(l), n))
				}
				if h != nil {
					p.decls = append(p.decls, fmt.Sprintf("(assert (<= %s %s))", n, intLit(h)))
				}
			}
		}
		return n
	case OBVar:
		return env[len(env)-1-t.Idx]
	case OApp:
		if t.Name == "indexbyte" {
			if b, ok := constBytes(t.Args[0]); ok && len(b) >= 8 {
				tab := make([]int64, 256)
				for i := range tab {
					tab[i] = int64(strings.IndexByte(string(b), byte(i)))
				}
				return p.table("ix", tab, -1, a(1))
			}
		}
		n := "f_" + t.Name
		if !p.declared[n] {
			var ps []string
			for _, x := range t.Args {
				p.useSort(x.Sort)
				ps = append(ps, sortName(x.Sort))
			}
			p.declare(n, fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(ps, " "), sortName(t.Sort)))
		}
		if len(t.Args) == 0 {
			return n
		}
		return "(" + n + p.args(t.Args, env) + ")"
	case OLin:
		var parts []string
		for i, x := range t.Args {
			s := p.T(x, env)
			if t.Coef[i].Cmp(bigOne) != 0 {
				s = "(* " + intLit(t.Coef[i]) + " " + s + ")"
			}
			parts = append(parts, s)
		}
		if t.K.Sign() != 0 {
			parts = append(parts, intLit(t.K))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case OMul:
		return "(*" + p.args(t.Args, env) + ")"
	case ODiv:
		return "(div " + a(0) + " " + a(1) + ")"
	case OMod:
		return "(mod " + a(0) + " " + a(1) + ")"
	case OGe0:
		// print as comparison
		x := t.Args[0]
		if x.Op == OLin {
			pos, neg := newLin(), newLin()
			for i, at := range x.Args {
				if x.Coef[i].Sign() > 0 {
					pos.add1(at, x.Coef[i])
				} else {
					neg.add1(at, new(big.Int).Neg(x.Coef[i]))
				}
			}
			if x.K.Sign() > 0 {
				pos.k.Set(x.K)
			} else {
				neg.k.Neg(x.K)
			}
			return "(>= " + p.T(pos.term(), env) + " " + p.T(neg.term(), env) + ")"
		}
		return "(>= " + a(0) + " 0)"
	case OEq:
		return "(= " + a(0) + " " + a(1) + ")"
	case OAnd:
		return "(and" + p.args(t.Args, env) + ")"
	case OOr:
		return "(or" + p.args(t.Args, env) + ")"
	case ONot:
		return "(not " + a(0) + ")"
	case OIte:
		return "(ite " + a(0) + " " + a(1) + " " + a(2) + ")"
	case OLen:
		p.useSort(t.Args[0].Sort)
		return "(len" + t.Args[0].Sort.Name + " " + a(0) + ")"
	case OGet:
		if b, ok := constInts(t.Args[0]); ok && len(b) >= 8 {
			return p.table("tb", b, 0, a(1))
		}
		p.useSort(t.Args[0].Sort)
		return "(get" + t.Args[0].Sort.Name + " " + a(0) + " " + a(1) + ")"
	case OLit:
		if len(t.Args) == 0 {
			return "empty" + t.Sort.Name
		}
		s := "(unit" + t.Sort.Name + " " + a(len(t.Args)-1) + ")"
		for i := len(t.Args) - 2; i >= 0; i-- {
			s = "(cat" + t.Sort.Name + " (unit" + t.Sort.Name + " " + a(i) + ") " + s + ")"
		}
		return s
	case OCat:
		s := a(len(t.Args) - 1)
		for i := len(t.Args) - 2; i >= 0; i-- {
			s = "(cat" + t.Sort.Name + " " + a(i) + " " + s + ")"
		}
		return s
	case OSub:
		return "(sub" + t.Sort.Name + " " + a(0) + " " + a(1) + " " + a(2) + ")"
	case OUpd:
		return "(upd" + t.Sort.Name + " " + a(0) + " " + a(1) + " " + a(2) + ")"
	case ORep:
		return "(rep" + t.Sort.Name + " " + a(0) + " " + a(1) + ")"
	case OSel:
		return "(select " + a(0) + " " + a(1) + ")"
	case OSto:
		return "(store " + a(0) + " " + a(1) + " " + a(2) + ")"
	case OTab, OBigcat, OSum, OArrTab:
		name, args := p.lift(t)
		return "(" + name + p.args(args, env) + ")"
	case OForall, OExists:
		v := fmt.Sprintf("q%d", len(env))
		lo, hi := a(0), a(1)
		body := p.T(t.Args[2], append(append([]string{}, env...), v))
		if t.Op == OForall {
			pat := ""
			if pt := findPattern(t.Args[2]); pt != nil {
				pat = p.T(pt, append(append([]string{}, env...), v))
			}
			inner := fmt.Sprintf("(=> (and (<= %s %s) (< %s %s)) %s)", lo, v, v, hi, body)
			if pat != "" {
				inner = "(! " + inner + " :pattern (" + pat + "))"
			}
			return fmt.Sprintf("(forall ((%s Int)) %s)", v, inner)
		}
		return fmt.Sprintf("(exists ((%s Int)) (and (<= %s %s) (< %s %s) %s))", v, lo, v, v, hi, body)
	case OForallS:
		v := fmt.Sprintf("q%d", len(env))
		p.useSort(t.BSort)
		return fmt.Sprintf("(forall ((%s %s)) %s)", v, sortName(t.BSort), p.T(t.Args[0], append(append([]string{}, env...), v)))
	}
	panic("print " + opNames[t.Op])
}

func constInts(t *Term) ([]int64, bool) {
	if t.Op != OLit {
		return nil, false
	}
	var out []int64
	for _, x := range t.Args {
		k, ok := x.Int64()
		if !ok {
			return nil, false
		}
		out = append(out, k)
	}
	return out, true
}

// table prints a constant table at an index as a piecewise-affine function.
func (p *Printer) table(kind string, tab []int64, dflt int64, ix string) string {
	h := fnv.New64a()
	fmt.Fprint(h, tab, dflt)
	n := fmt.Sprintf("%s_%x", kind, h.Sum64())
	if !p.declared[n] {
		type piece struct{ lo, hi, base, slope int64 }
		var ps []piece
		for i := 0; i < len(tab); {
			j := i
			pc := piece{lo: int64(i), base: tab[i]}
			if i+1 < len(tab) {
				pc.slope = tab[i+1] - tab[i]
				if pc.slope != 0 && pc.slope != 1 {
					pc.slope = 0
				}
			}
			for j+1 < len(tab) && tab[j+1] == pc.base+pc.slope*int64(j+1-i) {
				j++
			}
			pc.hi = int64(j)
			ps = append(ps, pc)
			i = j + 1
		}
		// binary search on the index
		var build func(ps []piece) string
		build = func(ps []piece) string {
			if len(ps) == 1 {
				q := ps[0]
				if q.slope == 0 {
					return intLit(big.NewInt(q.base))
				}
				return fmt.Sprintf("(+ x %s)", intLit(big.NewInt(q.base-q.lo)))
			}
			m := len(ps) / 2
			return fmt.Sprintf("(ite (< x %d) %s %s)", ps[m].lo, build(ps[:m]), build(ps[m:]))
		}
		p.declare(n, fmt.Sprintf("(define-fun %s ((x Int)) Int (ite (and (<= 0 x) (< x %d)) %s %s))", n, len(tab), build(ps), intLit(big.NewInt(dflt))))
	}
	return "(" + n + " " + ix + ")"
}

// findPattern looks for get(s,$0) or sel(a,$0) with s,a closed.
func findPattern(body *Term) *Term {
	var best *Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || best != nil {
			return
		}
		seen[t] = true
		if (t.Op == OGet || t.Op == OSel) && t.Args[1].Op == OBVar && t.Args[1].Idx == 0 && t.Args[0].maxBV == 0 {
			best = t
			return
		}
		if binder(t.Op) {
			for _, a := range t.Args[:len(t.Args)-1] {
				rec(a)
			}
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(body)
	return best
}

func (p *Printer) args(ts []*Term, env []string) string {
	var sb strings.Builder
	for _, t := range ts {
		sb.WriteByte(' ')
		sb.WriteString(p.T(t, env))
	}
	return sb.String()
}

// lift makes a function symbol for a comprehension, abstracted over its maximal
// subterms that do not mention the bound variable.
func (p *Printer) lift(t *Term) (string, []*Term) {
	n := len(t.Args)
	body := t.Args[n-1]
	var params []*Term
	idx := map[*Term]int{}
	var shape func(x *Term, depth int) string
	shape = func(x *Term, depth int) string {
		if !mentionsUpTo(x, depth) { // does not use the comprehension's (or inner) bound variables
			low := shift0(x, -depth)
			if low.Op == OConst || low.Op == OTrue || low.Op == OFalse || low.Op == OLit && len(low.Args) == 0 {
				return low.String()
			}
			if i, ok := idx[low]; ok {
				return fmt.Sprintf("#%d", i)
			}
			idx[low] = len(params)
			params = append(params, low)
			return fmt.Sprintf("#%d:%s", len(params)-1, low.Sort.Name)
		}
		if x.Op == OBVar {
			return fmt.Sprintf("$%d", x.Idx)
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "%s/%s/", opNames[x.Op], x.Name)
		if x.K != nil {
			sb.WriteString(x.K.String())
		}
		for i, a := range x.Args {
			d := depth
			if binder(x.Op) && i == len(x.Args)-1 {
				d++
			}
			sb.WriteByte('(')
			if x.Coef != nil {
				sb.WriteString(x.Coef[i].String() + "*")
			}
			sb.WriteString(shape(a, d))
			sb.WriteByte(')')
		}
		return sb.String()
	}
	key := opNames[t.Op] + "|" + t.Sort.Name + "|" + shape(body, 1)
	if t.Op == OArrTab {
		key += "|" + t.Args[2].String()
	}
	name := p.lifted[key]
	args := append(append([]*Term{}, t.Args[:n-1]...), params...)
	if name == "" {
		p.liftN++
		name = fmt.Sprintf("L%d_%s", p.liftN, opNames[t.Op])
		p.lifted[key] = name
		var ps, formals []string
		for i, a := range args {
			p.useSort(a.Sort)
			ps = append(ps, sortName(a.Sort))
			formals = append(formals, fmt.Sprintf("(p%d %s)", i, sortName(a.Sort)))
		}
		p.useSort(t.Sort)
		p.decls = append(p.decls, fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(ps, " "), sortName(t.Sort)))
		if !p.light {
			// body over formals
			bodyF := p.bodyOver(body, params, n-1)
			app := "(" + name
			for i := range args {
				app += fmt.Sprintf(" p%d", i)
			}
			app += ")"
			switch t.Op {
			case OTab:
				sn := t.Sort.Name
				p.axioms = append(p.axioms,
					fmt.Sprintf("(assert (forall (%s) (! (= (len%s %s) (ite (<= p0 p1) (- p1 p0) 0)) :pattern (%s))))", strings.Join(formals, " "), sn, app, app),
					fmt.Sprintf("(assert (forall (%s (i Int)) (! (=> (and (<= 0 i) (< i (- p1 p0))) (let ((e (let ((j (+ p0 i))) %s))) %s)) :pattern ((get%s %s i)))))", strings.Join(formals, " "), bodyF, guardB(t.Sort, "(= (get"+sn+" "+app+" i) e)"), sn, app))
			case OArrTab:
				p.axioms = append(p.axioms, fmt.Sprintf("(assert (forall (%s (r Int)) (! (= (select %s r) (let ((j (div (- r p1) p2))) (ite (and (<= p1 r) (< j p3) (= (mod (- r p1) p2) 0)) %s (select p0 r)))) :pattern ((select %s r)))))", strings.Join(formals, " "), app, bodyF, app))
			}
		}
	}
	return name, args
}

// bodyOver prints a comprehension body with params replaced by p<i> and the bound variable by j.
func (p *Printer) bodyOver(body *Term, params []*Term, off int) string {
	m := map[*Term]*Term{}
	for i, q := range params {
		m[q] = mk(Term{Op: OVar, Name: fmt.Sprintf("\x00p%d", i+off), Sort: q.Sort})
	}
	b := replaceParams(body, m, 1)
	save := p.noName
	p.noName = true
	defer func() { p.noName = save }()
	return p.T(b, []string{"j"})
}

func replaceParams(t *Term, m map[*Term]*Term, depth int) *Term {
	if !mentionsUpTo(t, depth) {
		if v, ok := m[shift0(t, -depth)]; ok {
			return v
		}
		return t
	}
	if t.Op == OBVar {
		return t
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		d := depth
		if binder(t.Op) && i == len(t.Args)-1 {
			d++
		}
		args[i] = replaceParams(a, m, d)
	}
	// keep the exact shape: no re-simplification
	n := *t
	n.Args = args
	n.ID, n.maxBV, n.rdone, n.lo, n.hi = 0, 0, false, nil, nil
	return mk(n)
}

// mentionsUpTo reports whether t uses a loose index below depth.
func mentionsUpTo(t *Term, depth int) bool {
	if t.maxBV == 0 || depth == 0 {
		return false
	}
	return looseBelow(t, 0, depth)
}
func looseBelow(t *Term, base, depth int) bool {
	if t.maxBV <= base {
		return false
	}
	if t.Op == OBVar {
		return t.Idx >= base && t.Idx < base+depth
	}
	for i, a := range t.Args {
		b := base
		if binder(t.Op) && i == len(t.Args)-1 {
			b++
		}
		if looseBelow(a, b, depth) {
			return true
		}
	}
	return false
}
func shift0(t *Term, by int) *Term {
	if t.maxBV == 0 {
		return t
	}
	return shift(t, by, 0)
}

// Script builds a full query: assumptions and negated goal must be unsat together.
func (p *Printer) Script(assume []*Term, goal *Term, lemmas []string) string {
	var asserts []string
	all := append(append([]*Term{}, assume...), Not(goal))
	ground := p.groundFacts(all)
	for _, t := range all {
		asserts = append(asserts, "(assert "+p.T(t, nil)+")")
	}
	for _, t := range ground {
		asserts = append(asserts, "(assert "+p.T(t, nil)+")")
	}
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	for _, d := range p.decls {
		sb.WriteString(d + "\n")
	}
	for _, d := range p.axioms {
		sb.WriteString(d + "\n")
	}
	for _, d := range lemmas {
		sb.WriteString(d + "\n")
	}
	for _, d := range asserts {
		sb.WriteString(d + "\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

func collect(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		f(t)
	}
	for _, t := range ts {
		rec(t)
	}
}

var bigDivConst = func(t *Term) bool {
	return t.Args[1].Op == OConst
}

// groundFacts: instances of definitions, comprehension unfoldings and extensionality
// for the closed terms of the query.
func (p *Printer) groundFacts(ts []*Term) []*Term {
	var out []*Term
	done := map[*Term]bool{}
	work := ts
	for round := 0; round <= p.fuel; round++ {
		var fresh []*Term
		var bigs []*Term
		collect(append(append([]*Term{}, ts...), out...), func(t *Term) {
			if (t.Op == OBigcat || t.Op == OSum || t.Op == OTab) && t.maxBV == 0 {
				bigs = append(bigs, t)
			}
		})
		collect(work, func(t *Term) {
			if t.maxBV > 0 || done[t] {
				return
			}
			switch t.Op {
			case OSel:
				done[t] = true
				if t.Sort == SInt {
					l, h := Range(t)
					if l != nil {
						fresh = append(fresh, mk(Term{Op: OGe0, Args: []*Term{Sub(t, IntB(l))}, Sort: SBool}))
					}
					if h != nil {
						fresh = append(fresh, mk(Term{Op: OGe0, Args: []*Term{Sub(IntB(h), t)}, Sort: SBool}))
					}
				}
			case OApp:
				done[t] = true
				if d := defOf(t.Name); d != nil {
					if d.Body != nil && !p.noDefs {
						m := map[*Term]*Term{}
						for i, v := range d.pvars {
							m[v] = t.Args[i]
						}
						b := substVars(d.Body, m, nil)
						if b != t {
							fresh = append(fresh, mkEqRaw(t, b))
						}
					}
					if d.Len != nil && t.Sort.Seq {
						fresh = append(fresh, mkEqRaw(mk(Term{Op: OLen, Args: []*Term{t}, Sort: SInt}), d.Len(t.Args)))
					}
					if t.Sort == SInt {
						if d.Lo != nil {
							fresh = append(fresh, mk(Term{Op: OGe0, Args: []*Term{Sub(t, IntB(d.Lo))}, Sort: SBool}))
						}
						if d.Hi != nil {
							fresh = append(fresh, mk(Term{Op: OGe0, Args: []*Term{Sub(IntB(d.Hi), t)}, Sort: SBool}))
						}
					}
				}
				if t.Name == "bebytes" {
					fresh = append(fresh, Implies(Ge0(t.Args[0]), mkEqRaw(mk(Term{Op: OApp, Name: "beval", Args: []*Term{t}, Sort: SInt}), t.Args[0])))
				}
				if t.Name == "band" || t.Name == "bor" || t.Name == "bxor" {
					if !t.Args[0].isConst() && !t.Args[1].isConst() {
						fresh = append(fresh, mkEqRaw(t, mk(Term{Op: OApp, Name: t.Name, Args: []*Term{t.Args[1], t.Args[0]}, Sort: SInt})))
					}
					if t.Name == "bor" {
						// operands that cannot share bits
						for i := 0; i < 2; i++ {
							if a := alignOf(t.Args[i]); a > 0 {
								o := t.Args[1-i]
								fresh = append(fresh, Implies(And(Ge0(o), Lt(o, pow2(a))), mkEqRaw(t, Add(t.Args[0], t.Args[1]))))
							}
						}
					}
					if r, ok := appRange(t); ok {
						fresh = append(fresh, mk(Term{Op: OGe0, Args: []*Term{t}, Sort: SBool}), mk(Term{Op: OGe0, Args: []*Term{Sub(IntB(r.hi), t)}, Sort: SBool}))
					}
				}
			case OBigcat, OSum:
				done[t] = true
				if round < p.fuel {
					lo, hi, b := t.Args[0], t.Args[1], t.Args[2]
					cond := Lt(lo, hi)
					var e, hd, tl *Term
					if t.Op == OBigcat {
						e = Empty(t.Sort)
						hd = Cat(instantiate(b, lo), Bigcat(AddK(lo, 1), hi, b))
						tl = CatRaw(Bigcat(lo, AddK(hi, -1), b), instantiate(b, AddK(hi, -1)))
					} else {
						e = Zero
						hd = Add(instantiate(b, lo), Sum(AddK(lo, 1), hi, b))
						tl = Add(Sum(lo, AddK(hi, -1), b), instantiate(b, AddK(hi, -1)))
					}
					fresh = append(fresh, Implies(Not(cond), mkEqRaw(t, e)))
					if hd != t {
						fresh = append(fresh, Implies(cond, mkEqRaw(t, hd)))
					}
					if tl != t {
						fresh = append(fresh, Implies(cond, mkEqRaw(t, tl)))
					}
				}
				// congruence with other comprehensions of the same sort
			case OEq:
				done[t] = true
				if t.Args[0].Sort.Seq {
					fresh = append(fresh, extFact(t.Args[0], t.Args[1]))
				}
			case OLen:
				done[t] = true
				fresh = append(fresh, mk(Term{Op: OGe0, Args: []*Term{Sub(IntB(maxLen), t)}, Sort: SBool}))
			}
		})
		if round == 0 {
			for i, x := range bigs {
				for _, y := range bigs[:i] {
					if x.Sort == y.Sort && x.Op == y.Op && x.Args[2] != y.Args[2] && x.Op != OTab {
						sk := Fresh("cong", SInt)
						rngc := And(Le(x.Args[0], sk), Lt(sk, x.Args[1]))
						same := And(Eq(x.Args[0], y.Args[0]), Eq(x.Args[1], y.Args[1]))
						ex, ey := instantiate(x.Args[2], sk), instantiate(y.Args[2], sk)
						neq := Not(eqExt(ex, ey))
						fresh = append(fresh, Implies(same, Or(mkEqRaw(x, y), And(rngc, neq))))
					}
				}
			}
		}
		if len(fresh) == 0 {
			break
		}
		out = append(out, fresh...)
		work = fresh
	}
	return out
}

func eqExt(a, b *Term) *Term { return Eq(a, b) }

func CatRaw(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		out = append(out, catParts(t)...)
	}
	if len(out) == 0 {
		return Empty(ts[0].Sort)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(Term{Op: OCat, Args: out, Sort: ts[0].Sort})
}

func mkEqRaw(a, b *Term) *Term {
	if a == b {
		return True
	}
	return mk(Term{Op: OEq, Args: sorted2(a, b), Sort: SBool})
}

var extSk = map[*Term]*Term{}
var extMu sync.Mutex

func extFact(a, b *Term) *Term {
	e := mkEqRaw(a, b)
	extMu.Lock()
	sk := extSk[e]
	if sk == nil {
		sk = Fresh("ext", SInt)
		extSk[e] = sk
	}
	extMu.Unlock()
	la, lb := Len(a), Len(b)
	ga := mk(Term{Op: OGet, Args: []*Term{a, sk}, Sort: a.Sort.Elem})
	gb := mk(Term{Op: OGet, Args: []*Term{b, sk}, Sort: a.Sort.Elem})
	return Or(e, Not(mkEqRaw(mk(Term{Op: OLen, Args: []*Term{a}, Sort: SInt}), mk(Term{Op: OLen, Args: []*Term{b}, Sort: SInt}))),
		And(Ge0(sk), Lt(sk, la), Lt(sk, lb), Not(mkEqRaw(ga, gb))))
}

// ---- solvers

type solverSpec struct {
	name string
	cmd  []string
}

var solvers []solverSpec

func initSolvers() {
	for _, s := range []solverSpec{
		{"z3-new", []string{"z3-new", "-in", "-smt2"}},
		{"z3", []string{"z3", "-in", "-smt2"}},
		{"cvc5", []string{"cvc5", "--lang=smt2", "--full-saturate-quant", "-"}},
	} {
		if _, err := exec.LookPath(s.cmd[0]); err == nil {
			solvers = append(solvers, s)
		}
	}
}

type solveRes struct {
	status string // unsat sat unknown timeout
	by     string
	secs   float64
	out    string
}

var solverSem = make(chan struct{}, 8)

func runSolver(ctx context.Context, s solverSpec, script string, timeout time.Duration) solveRes {
	select {
	case solverSem <- struct{}{}:
	case <-ctx.Done():
		return solveRes{status: "cancelled", by: s.name}
	}
	defer func() { <-solverSem }()
	c2, cancel := context.WithTimeout(ctx, timeout)
	defer cancel()
	start := time.Now()
	cmd := exec.CommandContext(c2, s.cmd[0], s.cmd[1:]...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	r := solveRes{by: s.name, secs: time.Since(start).Seconds(), out: strings.TrimSpace(out.String())}
	first := r.out
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = first[:i]
	}
	switch {
	case first == "unsat" || first == "sat" || first == "unknown":
		r.status = first
	case c2.Err() != nil:
		r.status = "timeout"
	default:
		r.status = "error"
	}
	return r
}

var dumpDir = os.Getenv("GOCV_DUMP")
var dumpN int

func writeDump(name, s string) {
	os.MkdirAll(dumpDir, 0o755)
	os.WriteFile(dumpDir+"/"+name, []byte(s), 0o644)
}

// prove runs the portfolio: z3-new first alone for a short time, then all in parallel.
func prove(script string, timeout time.Duration) (solveRes, float64) {
	total := 0.0
	ctx := context.Background()
	r := runSolver(ctx, solvers[0], script, minDur(timeout, 1500*time.Millisecond))
	total += r.secs
	if r.status == "unsat" || r.status == "sat" || timeout <= 1500*time.Millisecond {
		return r, total
	}
	c2, cancel := context.WithCancel(ctx)
	defer cancel()
	ch := make(chan solveRes, len(solvers))
	for _, s := range solvers {
		go func(s solverSpec) { ch <- runSolver(c2, s, script, timeout) }(s)
	}
	best := r
	for range solvers {
		q := <-ch
		if q.status != "cancelled" {
			total += q.secs
		}
		if q.status == "unsat" {
			return q, total
		}
		if q.status == "sat" {
			best = q
		} else if best.status == "error" || best.status == "timeout" {
			best = q
		}
	}
	return best, total
}

func minDur(a, b time.Duration) time.Duration {
	if a < b {
		return a
	}
	return b
}

// Session is an incremental z3 used for path pruning and term normalisation.
type Session struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	p     *Printer
	sent  int
	stack []*Term // asserted pc
	marks []int
	cache map[string]bool
	calls int
	secs  float64
	dead  bool
}

func NewSession() *Session {
	s := &Session{cache: map[string]bool{}}
	s.start()
	return s
}
func (s *Session) start() {
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	s.cmd = exec.Command(bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReader(o)
	if err := s.cmd.Start(); err != nil {
		s.dead = true
		return
	}
	io.WriteString(s.in, "(set-option :timeout 3000)\n(set-option :rlimit 700000)\n(set-option :global-declarations true)\n")
	s.p = NewPrinter()
	s.p.light = true
	s.sent = 0
}
func (s *Session) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func cheap(t *Term) bool {
	return !occurs(t, func(x *Term) bool {
		return x.Op == OForall || x.Op == OExists || x.Op == OForallS
	})
}

// nonlinear: products of unknowns and residues of large moduli, which make quick answers slow.
func nonlinear(t *Term) bool {
	return occurs(t, func(x *Term) bool {
		return x.Op == OMul || (x.Op == OMod || x.Op == ODiv) && (!x.Args[1].isConst() || x.Args[1].K.BitLen() > 64)
	})
}

// Implied reports whether pc |= c, by a quick solver call (false when unknown).
func (s *Session) Implied(pc []*Term, c *Term) bool {
	if s.dead || !cheap(c) {
		return false
	}
	return s.query(pc, Not(c)) == "unsat"
}
func (s *Session) Feasible(pc []*Term, c *Term) bool {
	if s.dead || !cheap(c) {
		return true
	}
	return s.query(pc, c) != "unsat"
}

func relevantFacts(ts []*Term) []*Term {
	var out []*Term
	collect(ts, func(t *Term) {
		if t.maxBV > 0 {
			return
		}
		switch t.Op {
		case OLen:
			out = append(out, mk(Term{Op: OGe0, Args: []*Term{t}, Sort: SBool}), mk(Term{Op: OGe0, Args: []*Term{Sub(IntB(maxLen), t)}, Sort: SBool}))
		case OGet:
			if t.Args[0].Sort == SeqB {
				out = append(out, mk(Term{Op: OGe0, Args: []*Term{t}, Sort: SBool}), mk(Term{Op: OGe0, Args: []*Term{Sub(Int(255), t)}, Sort: SBool}))
			}
		case OApp, OSel:
			if t.Sort == SInt {
				l, h := Range(t)
				if l != nil {
					out = append(out, mk(Term{Op: OGe0, Args: []*Term{Sub(t, IntB(l))}, Sort: SBool}))
				}
				if h != nil {
					out = append(out, mk(Term{Op: OGe0, Args: []*Term{Sub(IntB(h), t)}, Sort: SBool}))
				}
			}
		}
	})
	return out
}

func (s *Session) query(pc []*Term, c *Term) string {
	var use []*Term
	hardC := nonlinear(c)
	for _, t := range pc {
		if cheap(t) && (hardC || !nonlinear(t)) {
			use = append(use, t)
		}
	}
	use = append(use, c)
	// keep only the facts connected to c? small queries: send everything
	ids := make([]int, len(use))
	for i, t := range use {
		ids[i] = t.ID
	}
	sort.Ints(ids[:len(ids)-1])
	key := fmt.Sprint(ids)
	if r, ok := s.cache[key]; ok {
		if r {
			return "unsat"
		}
		return "sat"
	}
	start := time.Now()
	var sb strings.Builder
	var asserts []string
	facts := relevantFacts(use)
	for _, t := range append(use, facts...) {
		asserts = append(asserts, "(assert "+s.p.T(t, nil)+")")
	}
	for ; s.sent < len(s.p.decls); s.sent++ {
		sb.WriteString(s.p.decls[s.sent] + "\n")
	}
	sb.WriteString("(push)\n")
	for _, a := range asserts {
		sb.WriteString(a + "\n")
	}
	sb.WriteString("(check-sat)\n(pop)\n")
	s.calls++
	io.WriteString(s.in, sb.String())
	res := ""
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			res = "unknown"
			break
		}
		line = strings.TrimSpace(line)
		if line == "sat" || line == "unsat" || line == "unknown" || line == "timeout" {
			res = line
			break
		}
		if strings.HasPrefix(line, "(error") {
			if os.Getenv("GOCV_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "session:", line)
			}
		}
	}
	s.secs += time.Since(start).Seconds()
	s.cache[key] = res == "unsat"
	return res
}
