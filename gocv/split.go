package main

// Case splitting: expand definitions, split on the conditions of if-then-else terms,
// re-simplify each case and discharge the leaves.

import (
	"math/big"
	"os"
	"time"
)

// pinned returns the integer atoms that the facts force to one value, with that value.
func pinned(pc []*Term) map[*Term]*Term {
	lo, hi := map[*Term]*big.Int{}, map[*Term]*big.Int{}
	seqs := map[*Term]*Term{}
	setLo := func(a *Term, v *big.Int) {
		if o := lo[a]; o == nil || v.Cmp(o) > 0 {
			lo[a] = v
		}
	}
	setHi := func(a *Term, v *big.Int) {
		if o := hi[a]; o == nil || v.Cmp(o) < 0 {
			hi[a] = v
		}
	}
	for _, t := range pc {
		if (t.Op != OGe0 && t.Op != OEq) || t.maxBV > 0 {
			continue
		}
		if t.Op == OEq {
			for i := 0; i < 2; i++ {
				if a, c := t.Args[i], t.Args[1-i]; c.Op == OConst && a.Op != OConst && a.Op != OLin && a.Op != OIte && a.Sort == SInt {
					setLo(a, c.K)
					setHi(a, c.K)
				}
			}
			for i := 0; i < 2; i++ {
				a, c := t.Args[i], t.Args[1-i]
				if a.Op == OVar && a.Sort.Seq && c.Op == OLit {
					seqs[a] = c
				}
				if a.Op == OLen && a.Args[0].Op == OVar && c.Op == OConst && c.K.Sign() == 0 {
					seqs[a.Args[0]] = Empty(a.Args[0].Sort)
				}
			}
			continue
		}
		a := t.Args[0]
		if a.Op != OLin {
			if a.Op != OIte && a.Op != OConst {
				setLo(a, new(big.Int))
			}
			continue
		}
		l := linOf(a)
		if len(l.atoms) != 1 {
			continue
		}
		x := l.atoms[0]
		if x.Op == OIte {
			continue
		}
		switch c := l.coef[x]; {
		case c.Cmp(bigOne) == 0: // x + k >= 0
			setLo(x, new(big.Int).Neg(l.k))
		case c.Cmp(bigM1) == 0: // k - x >= 0
			setHi(x, new(big.Int).Set(l.k))
		}
	}
	m := seqs
	for x, l := range lo {
		h := hi[x]
		if h == nil {
			_, h = Range(x)
		}
		if h != nil && h.Cmp(l) == 0 {
			m[x] = IntB(l)
		}
	}
	for x, h := range hi {
		if lo[x] == nil {
			if l, _ := Range(x); l != nil && l.Cmp(h) == 0 {
				m[x] = IntB(l)
			}
		}
	}
	return m
}

var leafDebug = os.Getenv("GOCV_LEAF") != ""

// pin substitutes pinned atoms everywhere, keeping the facts that pin them.
func pin(pc []*Term, goal *Term) ([]*Term, *Term, bool) {
	m := pinned(pc)
	if len(m) == 0 {
		return pc, goal, false
	}
	memo := map[*Term]*Term{}
	var out []*Term
	ch := false
	for _, p := range pc {
		q := renorm(p, m, nil, memo)
		ch = ch || q != p
		if q != True {
			out = append(out, flatAnd(q)...)
		}
	}
	for x, v := range m {
		if v.Sort.Seq && len(v.Args) == 0 {
			out = append(out, mkEqRaw(mk(Term{Op: OLen, Args: []*Term{x}, Sort: SInt}), Zero))
			continue
		}
		out = append(out, mkEq(x, v))
	}
	g := renorm(goal, m, nil, memo)
	return out, g, ch || g != goal
}

func expandDefs(t *Term, memo map[*Term]*Term) *Term {
	if r := memo[t]; r != nil {
		return r
	}
	r := t
	if len(t.Args) > 0 {
		r = rebuild(t, func(a *Term, last bool) *Term { return expandDefs(a, memo) }, nil)
	}
	if r.Op == OApp && r.maxBV == 0 {
		if d := defOf(r.Name); d != nil && d.Body != nil && !d.Rec {
			m := map[*Term]*Term{}
			for i, v := range d.pvars {
				m[v] = r.Args[i]
			}
			b := substVars(d.Body, m, nil)
			if b != r {
				r = expandDefs(b, memo)
			}
		}
	}
	memo[t] = r
	return r
}

// renorm rebuilds t bottom-up, replacing the keys of m, with the decider's help.
func renorm(t *Term, m map[*Term]*Term, d Decider, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 || t.maxBV > 0 {
		return t
	}
	if r := memo[t]; r != nil {
		return r
	}
	var r *Term
	if binder(t.Op) {
		r = substVars(t, m, d)
	} else {
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = renorm(a, m, d, memo)
		}
		r = remake(t, args, d)
	}
	memo[t] = r
	return r
}

func findSplit(t *Term) *Term {
	var best *Term
	collect([]*Term{t}, func(x *Term) {
		if best == nil && x.Op == OIte && x.maxBV == 0 && x.Args[0].maxBV == 0 && cheap(x.Args[0]) {
			c := x.Args[0]
			for c.Op == ONot || c.Op == OAnd || c.Op == OOr {
				c = c.Args[0]
			}
			if c != True && c != False {
				best = c
			}
		}
	})
	return best
}

type splitter struct {
	e      *Engine
	sess   *Session
	leaves int
	until  time.Time
	fuel   int
	secs   float64
	sc     scope
	norm   map[*Term]bool
}

func hasBinder(t *Term) bool {
	return occurs(t, func(x *Term) bool { return binder(x.Op) })
}

func (s *splitter) dec(pc []*Term) Decider {
	return func(c *Term) bool {
		if c == True {
			return true
		}
		for _, p := range pc {
			if p == c {
				return true
			}
		}
		return s.sess.Implied(pc, c)
	}
}

func rangeBinder(op Op) bool {
	switch op {
	case OTab, OBigcat, OSum, OForall, OExists:
		return true
	}
	return false
}

func mkRange(op Op, lo, hi, body *Term, s *Sort) *Term {
	switch op {
	case OTab:
		return Tab(lo, hi, body, s)
	case OBigcat:
		return Bigcat(lo, hi, body)
	case OSum:
		return Sum(lo, hi, body)
	case OForall:
		return Forall(lo, hi, body)
	}
	return Exists(lo, hi, body)
}

// normBinders simplifies the bodies of range comprehensions under their range.
func (s *splitter) normBinders(pc []*Term, t *Term, depth int, memo map[*Term]*Term) *Term {
	if len(t.Args) == 0 || t.maxBV > 0 || !hasBinder(t) {
		return t
	}
	if r := memo[t]; r != nil {
		return r
	}
	var r *Term
	if rangeBinder(t.Op) {
		lo := s.normBinders(pc, t.Args[0], depth, memo)
		hi := s.normBinders(pc, t.Args[1], depth, memo)
		body := t.Args[2]
		if body.maxBV > 0 && depth < 3 && occurs(body, func(x *Term) bool {
			return x.Op == OSel && (x.Args[0].Op == OSto || x.Args[0].Op == OArrTab) || (x.Op == OGet || x.Op == OSub) && x.Args[0].Op != OVar
		}) {
			v := Var("$nb"+string(rune('0'+depth)), SInt)
			np := append(append([]*Term{}, pc...), Ge(v, lo), Lt(v, hi))
			b := renorm(instantiate(body, v), map[*Term]*Term{}, s.dec(np), map[*Term]*Term{})
			b = s.normBinders(np, b, depth+1, map[*Term]*Term{})
			body = abstract(b, v)
		}
		r = mkRange(t.Op, lo, hi, body, t.Sort)
	} else if binder(t.Op) {
		r = t
	} else {
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = s.normBinders(pc, a, depth, memo)
		}
		r = remake(t, args, s.dec(pc))
	}
	memo[t] = r
	return r
}

// peel separates the last element of a comprehension when the facts speak about the one without it.
func (s *splitter) peel(pc []*Term, t *Term) *Term {
	have := map[*Term]bool{}
	collect(pc, func(x *Term) {
		if rangeBinder(x.Op) && x.maxBV == 0 {
			have[x] = true
		}
	})
	known := map[*Term]bool{}
	collect(append(append([]*Term{}, pc...), t), func(x *Term) {
		if rangeBinder(x.Op) && x.maxBV == 0 {
			known[x] = true
		}
	})
	var rec func(t *Term) *Term
	memo := map[*Term]*Term{}
	rec = func(t *Term) *Term {
		if len(t.Args) == 0 || t.maxBV > 0 || !hasBinder(t) {
			return t
		}
		if r := memo[t]; r != nil {
			return r
		}
		r := t
		if rangeBinder(t.Op) {
			lo, hi, body := t.Args[0], t.Args[1], t.Args[2]
			h1 := AddK(hi, -1)
			if !have[t] {
				sub := mkRange(t.Op, lo, h1, body, t.Sort)
				first := mkRange(t.Op, AddK(lo, 1), hi, body, t.Sort)
				if known[sub] && s.dec(pc)(Ge(h1, lo)) {
					last := instantiateD(body, h1, s.dec(pc))
					switch t.Op {
					case OTab:
						r = CatS(t.Sort, sub, Lit(t.Sort, last))
					case OBigcat:
						r = Cat(sub, last)
					case OSum:
						r = Add(sub, last)
					case OForall:
						r = And(sub, last)
					case OExists:
						r = Or(sub, last)
					}
				} else if known[first] && s.dec(pc)(Lt(lo, hi)) {
					fst := instantiateD(body, lo, s.dec(pc))
					switch t.Op {
					case OTab:
						r = CatS(t.Sort, Lit(t.Sort, fst), first)
					case OBigcat:
						r = Cat(fst, first)
					case OSum:
						r = Add(fst, first)
					case OForall:
						r = And(fst, first)
					case OExists:
						r = Or(fst, first)
					}
				}
			}
		} else if !binder(t.Op) {
			args := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				args[i] = rec(a)
			}
			r = remake(t, args, s.dec(pc))
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// useEqs replaces comprehensions in t that the facts equate with something simpler.
func (s *splitter) useEqs(pc []*Term, t *Term) *Term {
	m := map[*Term]*Term{}
	for _, p := range pc {
		if p.Op != OEq || p.maxBV > 0 {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := p.Args[i], p.Args[1-i]
			if (a.Op == OBigcat || a.Op == OSum || a.Op == OTab) && !hasBinder(b) && m[a] == nil {
				m[a] = b
			}
		}
	}
	if len(m) == 0 {
		return t
	}
	return renorm(t, m, s.dec(pc), map[*Term]*Term{})
}

// peelEq turns tab(lo,k+1,f) = tab(lo,k,f) ++ [e] into f(k) = e.
func peelEq(g *Term, d Decider) *Term {
	if g.Op != OEq || g.maxBV > 0 {
		return g
	}
	for i := 0; i < 2; i++ {
		a, b := g.Args[i], g.Args[1-i]
		if a.Op != OTab || b.Op != OCat || len(b.Args) != 2 {
			continue
		}
		t, l := b.Args[0], b.Args[1]
		if t.Op == OTab && l.Op == OLit && len(l.Args) == 1 && t.Args[0] == a.Args[0] && t.Args[2] == a.Args[2] && AddK(t.Args[1], 1) == a.Args[1] && d(Ge(t.Args[1], t.Args[0])) {
			return mkEqRaw(instantiateD(a.Args[2], t.Args[1], d), l.Args[0])
		}
	}
	return g
}

// prefixEqs rewrites a sequence variable v of the goal as x ++ v[n:] where the facts equate v[0:n] with x.
func (s *splitter) prefixEqs(pc []*Term, t *Term) *Term {
	m := map[*Term]*Term{}
	d := s.dec(pc)
	for k := len(pc) - 1; k >= 0; k-- {
		p := pc[k]
		if p.Op != OEq || p.maxBV > 0 {
			continue
		}
		for i := 0; i < 2; i++ {
			a, x := p.Args[i], p.Args[1-i]
			if a.Op != OSub || a.Args[0].Op != OVar || a.Args[1] != Zero || m[a.Args[0]] != nil {
				continue
			}
			v, n := a.Args[0], a.Args[2]
			if occurs(x, func(y *Term) bool { return y == v }) || !occurs(t, func(y *Term) bool { return y == v }) {
				continue
			}
			if Len(x) == n {
				m[v] = Cat(x, SubSeq(v, n, Len(v), d))
			}
		}
	}
	if len(m) == 0 {
		return t
	}
	t = renorm(t, m, d, map[*Term]*Term{})
	// within a concatenation, v written to the first cell of s is [v] ++ s[1:]
	m = map[*Term]*Term{}
	collect([]*Term{t}, func(x *Term) {
		if x.Op != OCat {
			return
		}
		for _, u := range x.Args {
			if u.Op == OUpd && u.Args[1] == Zero && u.maxBV == 0 && d(Ge(Len(u.Args[0]), One)) {
				m[u] = CatS(u.Sort, Lit(u.Sort, u.Args[2]), SubSeq(u.Args[0], One, Len(u.Args[0]), d))
			}
		}
	})
	if len(m) > 0 {
		t = renorm(t, m, d, map[*Term]*Term{})
	}
	return t
}

func (e *Engine) proveSplit(pc []*Term, goal *Term, fuel int, total time.Duration, sc scope) (bool, float64, int) {
	s := &splitter{e: e, sess: NewSession(), until: time.Now().Add(total), fuel: fuel, sc: sc, norm: map[*Term]bool{}}
	defer s.sess.Close()
	memo := map[*Term]*Term{}
	var p2 []*Term
	for _, t := range pc {
		p2 = append(p2, flatAnd(expandDefs(t, memo))...)
	}
	g := expandDefs(goal, memo)
	p2, g, _ = pin(p2, g)
	if g2 := s.prefixEqs(p2, g); g2 != g && s.run(p2, g2, 0) {
		return true, s.secs + s.sess.secs, s.leaves
	}
	ok := s.run(p2, g, 0)
	return ok, s.secs + s.sess.secs, s.leaves
}

func flatAnd(t *Term) []*Term {
	if t.Op == OAnd {
		return t.Args
	}
	return []*Term{t}
}

func (s *splitter) run(pc []*Term, goal *Term, depth int) bool {
	if goal == True {
		return true
	}
	if time.Now().After(s.until) {
		return false
	}
	if goal.Op == OAnd {
		for _, g := range goal.Args {
			if !s.run(pc, g, depth) {
				return false
			}
		}
		return true
	}
	if goal.Op == OOr {
		// prove the last disjunct under the negation of the others
		g := goal.Args[len(goal.Args)-1]
		np := append([]*Term{}, pc...)
		for _, a := range goal.Args[:len(goal.Args)-1] {
			np = append(np, flatAnd(Not(a))...)
		}
		if len(goal.Args) > 1 {
			_ = g
		}
	}
	dec := func(pc []*Term) Decider {
		return func(c *Term) bool {
			if c == True {
				return true
			}
			for _, p := range pc {
				if p == c {
					return true
				}
			}
			return s.sess.Implied(pc, c)
		}
	}
	for _, p := range pc {
		if p == goal {
			return true
		}
	}
	g2 := renorm(goal, map[*Term]*Term{}, dec(pc), map[*Term]*Term{})
	if g2 != goal {
		return s.run(pc, g2, depth)
	}
	if hasBinder(goal) && !s.norm[goal] {
		g2 := s.useEqs(pc, s.peel(pc, s.normBinders(pc, goal, 0, map[*Term]*Term{})))
		if g2 != goal {
			s.norm[g2] = g2.Op != OAnd
			return s.run(pc, g2, depth)
		}
	}
	if g2 := peelEq(goal, dec(pc)); g2 != goal {
		return s.run(pc, g2, depth)
	}
	if goal.Op == OEq && goal.maxBV == 0 && goal.Args[0].Op == OApp && goal.Args[1].Op == OApp && goal.Args[0].Name == goal.Args[1].Name && depth < 12 && !s.norm[goal] {
		// congruence: equal arguments suffice
		s.norm[goal] = true
		ok := true
		for i, a := range goal.Args[0].Args {
			b := goal.Args[1].Args[i]
			if a == b {
				continue
			}
			if a.Sort.Seq {
				ok = ok && s.run(pc, Eq(Len(a), Len(b)), depth+1)
				v := Fresh("sk", SInt)
				np := append(append([]*Term{}, pc...), Ge0(v), Lt(v, Len(a)))
				ok = ok && s.run(np, Eq(Get(a, v, dec(np)), Get(b, v, dec(np))), depth+1)
			} else {
				ok = ok && s.run(pc, Eq(a, b), depth+1)
			}
			if !ok {
				break
			}
		}
		if ok {
			return true
		}
	}
	if goal.Op == OForall && depth < 12 {
		v := Fresh("sk", SInt)
		np := append([]*Term{}, pc...)
		np = append(np, Ge(v, goal.Args[0]), Lt(v, goal.Args[1]))
		for _, p := range pc {
			if p.Op == OForall {
				np = append(np, flatAnd(Implies(And(Ge(v, p.Args[0]), Lt(v, p.Args[1])), instantiate(p.Args[2], v)))...)
			}
		}
		return s.run(np, instantiateD(goal.Args[2], v, dec(np)), depth+1)
	}
	c := findSplit(goal)
	if c == nil {
		for _, p := range pc {
			if c = findSplit(p); c != nil {
				break
			}
		}
	}
	if c != nil && depth < 12 {
		for _, pol := range []bool{true, false} {
			lit, val := c, True
			if !pol {
				lit, val = Not(c), False
			}
			if !s.sess.Feasible(pc, lit) {
				continue
			}
			m := map[*Term]*Term{c: val, Not(c): Not(val)}
			memo := map[*Term]*Term{}
			np := flatAnd(lit)
			np = append([]*Term{}, np...)
			dead := false
			for _, p := range pc {
				q := renorm(p, m, nil, memo)
				if q == False {
					dead = true
				}
				if q != True {
					np = append(np, flatAnd(q)...)
				}
			}
			if dead {
				continue
			}
			g := renorm(goal, m, nil, map[*Term]*Term{})
			np, g, _ = pin(np, g)
			g = renorm(g, map[*Term]*Term{}, dec(np), map[*Term]*Term{})
			if !s.run(np, g, depth+1) {
				return false
			}
		}
		return true
	}
	s.leaves++
	p := NewPrinter()
	p.fuel = s.fuel
	scr := p.Script(pc, goal, s.e.lemmaAxiomsBefore(p, append(append([]*Term{}, pc...), goal), s.sc))
	left := time.Until(s.until)
	if left > 8*time.Second {
		left = 8 * time.Second
	}
	if left <= 0 {
		return false
	}
	r, tot := prove(scr, left)
	s.secs += tot
	if r.status != "unsat" && leafDebug {
		repMu.Lock()
		println("---- leaf", r.status)
		for _, t := range pc {
			println("  ", t.String())
		}
		println("  GOAL", goal.String())
		repMu.Unlock()
	}
	return r.status == "unsat"
}
