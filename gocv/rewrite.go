package main

// Equalities of the path used as rewrite rules, so that the normal forms of the term language
// (linear, modular) see through them.

import "time"

func termSize(t *Term, memo map[*Term]int) int {
	if n, ok := memo[t]; ok {
		return n
	}
	n := 1
	for _, a := range t.Args {
		n += termSize(a, memo)
		if n > 1<<20 {
			break
		}
	}
	memo[t] = n
	return n
}

func occursIn(t, x *Term, memo map[*Term]bool) bool {
	if t == x {
		return true
	}
	if r, ok := memo[t]; ok {
		return r
	}
	for _, a := range t.Args {
		if occursIn(a, x, memo) {
			memo[t] = true
			return true
		}
	}
	memo[t] = false
	return false
}

func conjuncts(ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		if t.Op == OAnd {
			out = append(out, conjuncts(t.Args)...)
		} else {
			out = append(out, t)
		}
	}
	return out
}

// orient makes a rule from an equality: a variable, else an application of an uninterpreted
// function, is replaced by the rest.
func orient(eq *Term) (from, to *Term, ok bool) {
	if eq.Op != OEq {
		return
	}
	a, b := eq.Args[0], eq.Args[1]
	sz := map[*Term]int{}
	best := -1
	try := func(f, t *Term) {
		if occursIn(t, f, map[*Term]bool{}) {
			return
		}
		score := 0
		switch {
		case f.Op == OVar:
			score = 1 << 22
		case f.Op == OApp && len(f.Args) > 0 || f.Op == OSel:
			score = termSize(f, sz)
			if t.Op == OConst {
				score += 1 << 21
			}
		default:
			return
		}
		if score > best {
			best, from, to, ok = score, f, t, true
		}
	}
	if a.Sort != SInt {
		if a.Sort == SBool {
			return
		}
		try(a, b)
		try(b, a)
		return
	}
	d := Sub(a, b)
	if d.Op != OLin {
		if d.Op == OApp || d.Op == OVar {
			try(d, Zero)
		}
		return
	}
	for i, at := range d.Args {
		if !d.Coef[i].IsInt64() {
			continue
		}
		switch d.Coef[i].Int64() {
		case 1:
			try(at, Sub(at, d))
		case -1:
			try(at, Add(at, d))
		}
	}
	return
}

func rewriteAll(pc []*Term, goal *Term) ([]*Term, *Term, int) {
	n := 0
	used := map[*Term]bool{}
	pc = conjuncts(pc)
	all := 0
	for round := 0; round < 48; round++ {
		hit := false
		for i, eq := range pc {
			from, to, ok := orient(eq)
			if !ok || used[from] || all == 0 && !relevant(from, goal) {
				continue
			}
			used[from] = true
			m := map[*Term]*Term{from: to}
			memo := map[[2]int]*Term{}
			g := substM(goal, m, 0, nil, memo)
			var out []*Term
			for j, t := range pc {
				if i == j {
					out = append(out, t)
					continue
				}
				r := substM(t, m, 0, nil, memo)
				if r == True {
					continue
				}
				out = append(out, r)
			}
			pc, goal = conjuncts(out), g
			n++
			hit = true
			break
		}
		if goal == True {
			break
		}
		if !hit {
			if all == 1 {
				break
			}
			all = 1
		}
	}
	return pc, goal, n
}

func relevant(from, goal *Term) bool {
	return occursIn(goal, from, map[*Term]bool{})
}

// proveRewrite retries an obligation after rewriting with the equalities of its path.
func (e *Engine) proveRewrite(o *Obl, timeout time.Duration, sc scope) (by string, secs float64, ok bool) {
	defer func() {
		if recover() != nil {
			by, ok = "", false
		}
	}()
	pc, goal, n := rewriteAll(o.PC, o.Goal)
	if n == 0 {
		return "", 0, false
	}
	if goal == True {
		return "gocv-simplifier (rewriting)", 0, true
	}
	for _, defs := range []bool{false, true} {
		p := NewPrinter()
		p.noDefs = !defs
		var lem []string
		if defs {
			lem = e.lemmaAxiomsBefore(p, append(append([]*Term{}, pc...), goal), sc)
		}
		r, t := prove(p.Script(pc, goal, lem), minDur(timeout, 2*time.Second))
		secs += t
		if r.status == "unsat" {
			return r.by + " (rewriting)", secs, true
		}
	}
	return "", secs, false
}
