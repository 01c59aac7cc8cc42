package main

// Terms: hash-consed, kept in a normal form by the smart constructors.
// Integers are mathematical; machine arithmetic is made explicit by the executor.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type Sort struct {
	Name string
	Elem *Sort // element sort of sequences and arrays
	Seq  bool
	Arr  bool
}

var (
	SInt  = &Sort{Name: "Int"}
	SBool = &Sort{Name: "Bool"}
	SeqB  = &Sort{Name: "SeqB", Elem: SInt, Seq: true} // bytes and strings, elements 0..255
	SeqI  = &Sort{Name: "SeqI", Elem: SInt, Seq: true} // other integers, references
	SeqS  = &Sort{Name: "SeqS", Elem: SeqB, Seq: true} // sequences of byte strings
	arrs  = map[*Sort]*Sort{}
)

func init() {
	for _, s := range []*Sort{SInt, SBool, SeqB, SeqI, SeqS} {
		arrs[s] = &Sort{Name: "(Array Int " + s.Name + ")", Elem: s, Arr: true}
	}
}

func ArrOf(s *Sort) *Sort {
	if a := arrs[s]; a != nil {
		return a
	}
	panic("no array sort of " + s.Name)
}

type Op uint8

const (
	OConst Op = iota
	OTrue
	OFalse
	OVar
	OBVar
	OApp
	OLin
	OMul
	ODiv
	OMod
	OGe0 // arg >= 0
	OEq
	OAnd
	OOr
	ONot
	OIte
	OLen
	OGet
	OCat
	OLit
	OSub
	OUpd
	ORep
	OTab    // lo hi \j.elem
	OBigcat // lo hi \j.seq
	OSum    // lo hi \j.int
	OSel
	OSto
	OArrTab // base array, start ref, stride, count, \j.value : stores value(j) at start+stride*j for 0<=j<count
	OForall // lo hi \j.body   (int range lo<=j<hi)
	OExists
	OForallS // unbounded quantifier over sort BSort: \x.body
)

var opNames = map[Op]string{OConst: "const", OTrue: "true", OFalse: "false", OVar: "var", OBVar: "bv", OApp: "app", OLin: "lin", OMul: "*", ODiv: "div", OMod: "mod", OGe0: "ge0", OEq: "=", OAnd: "and", OOr: "or", ONot: "not", OIte: "ite", OLen: "len", OGet: "get", OCat: "cat", OLit: "lit", OSub: "sub", OUpd: "upd", ORep: "rep", OTab: "tab", OBigcat: "bigcat", OSum: "sum", OSel: "sel", OSto: "sto", OArrTab: "arrtab", OForall: "forall", OExists: "exists", OForallS: "forallS"}

type Term struct {
	Op    Op
	Name  string
	Args  []*Term
	Coef  []*big.Int // OLin
	K     *big.Int   // OConst value, OLin constant
	Idx   int        // OBVar
	Sort  *Sort
	BSort *Sort // OForallS
	ID    int
	maxBV int // 1 + largest loose de Bruijn index, 0 when closed
	lo    *big.Int
	hi    *big.Int
	rdone bool
}

var (
	tmu    sync.Mutex
	tcache = map[string]*Term{}
	tcount = 0
)

func binder(op Op) bool {
	switch op {
	case OTab, OBigcat, OSum, OForall, OExists, OForallS, OArrTab:
		return true
	}
	return false
}

func mk(t Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%d|%s|", t.Op, t.Name, t.Idx, t.Sort.Name)
	for _, a := range t.Args {
		fmt.Fprintf(&sb, "%d,", a.ID)
	}
	for _, c := range t.Coef {
		sb.WriteString(c.String())
		sb.WriteByte(',')
	}
	if t.K != nil {
		sb.WriteString(t.K.String())
	}
	if t.BSort != nil {
		sb.WriteString(t.BSort.Name)
	}
	key := sb.String()
	tmu.Lock()
	defer tmu.Unlock()
	if old := tcache[key]; old != nil {
		return old
	}
	n := new(Term)
	*n = t
	tcount++
	n.ID = tcount
	if t.Op == OBVar {
		n.maxBV = t.Idx + 1
	}
	for i, a := range t.Args {
		m := a.maxBV
		if binder(t.Op) && i == len(t.Args)-1 && m > 0 {
			m--
		}
		if m > n.maxBV {
			n.maxBV = m
		}
	}
	tcache[key] = n
	return n
}

var (
	True  = mk(Term{Op: OTrue, Sort: SBool})
	False = mk(Term{Op: OFalse, Sort: SBool})
	Zero  = Int(0)
	One   = Int(1)
)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Int(i int64) *Term       { return IntB(big.NewInt(i)) }
func IntB(b *big.Int) *Term   { return mk(Term{Op: OConst, K: new(big.Int).Set(b), Sort: SInt}) }
func (t *Term) isConst() bool { return t.Op == OConst }
func (t *Term) Int64() (int64, bool) {
	if t.Op == OConst && t.K.IsInt64() {
		return t.K.Int64(), true
	}
	return 0, false
}

// ---- variables with integer ranges

type rng struct{ lo, hi *big.Int }

var varRange = map[string]rng{}

func Var(name string, s *Sort) *Term { return mk(Term{Op: OVar, Name: name, Sort: s}) }
func VarR(name string, lo, hi *big.Int) *Term {
	tmu.Lock()
	varRange[name] = rng{lo, hi}
	tmu.Unlock()
	return Var(name, SInt)
}

var freshN = 0

func freshName(p string) string {
	tmu.Lock()
	defer tmu.Unlock()
	freshN++
	return fmt.Sprintf("%s!%d", p, freshN)
}
func Fresh(p string, s *Sort) *Term { return Var(freshName(p), s) }

func BV(i int, s *Sort) *Term { return mk(Term{Op: OBVar, Idx: i, Sort: s}) }

func App(name string, s *Sort, args ...*Term) *Term {
	if t := rewriteApp(name, s, args); t != nil {
		return t
	}
	return mk(Term{Op: OApp, Name: name, Args: args, Sort: s})
}

// ---- integers in linear normal form

type linear struct {
	atoms []*Term
	coef  map[*Term]*big.Int
	k     *big.Int
}

func newLin() *linear { return &linear{coef: map[*Term]*big.Int{}, k: new(big.Int)} }
func (l *linear) add(t *Term, c *big.Int) {
	if c.Sign() == 0 {
		return
	}
	switch t.Op {
	case OConst:
		l.k.Add(l.k, new(big.Int).Mul(c, t.K))
	case OLin:
		l.k.Add(l.k, new(big.Int).Mul(c, t.K))
		for i, a := range t.Args {
			l.add1(a, new(big.Int).Mul(c, t.Coef[i]))
		}
	default:
		l.add1(t, c)
	}
}
func (l *linear) add1(a *Term, c *big.Int) {
	if o := l.coef[a]; o != nil {
		l.coef[a] = new(big.Int).Add(o, c)
	} else {
		l.atoms = append(l.atoms, a)
		l.coef[a] = c
	}
}

// recombine merges c*(X mod m) + c*m*(X div m [mod m2]) into c*X or c*(X mod m*m2).
func (l *linear) recombine() {
	for again := true; again; {
		again = false
		for _, a := range l.atoms {
			c := l.coef[a]
			if a.Op != OMod || c.Sign() == 0 || a.Args[1].Op != OConst {
				continue
			}
			x, m := a.Args[0], a.Args[1].K
			d := mk(Term{Op: ODiv, Args: []*Term{x, a.Args[1]}, Sort: SInt})
			if x.Op == ODiv || x.Op == OLin || x.Op == OMod {
				d = Div(x, a.Args[1])
			}
			cm := new(big.Int).Mul(c, m)
			if cd := l.coef[d]; cd != nil && cd.Cmp(cm) == 0 {
				l.coef[a] = new(big.Int)
				l.coef[d] = new(big.Int)
				l.add(x, c)
				again = true
				break
			}
			found := false
			for _, b := range l.atoms {
				if b.Op == OMod && b.Args[0] == d && b.Args[1].Op == OConst && l.coef[b].Cmp(cm) == 0 {
					l.coef[a] = new(big.Int)
					l.coef[b] = new(big.Int)
					l.add(Mod(x, IntB(new(big.Int).Mul(m, b.Args[1].K))), c)
					found = true
					break
				}
			}
			if found {
				again = true
				break
			}
		}
	}
}
func (l *linear) term() *Term {
	if len(l.atoms) > 1 {
		l.recombine()
	}
	var as []*Term
	for _, a := range l.atoms {
		if l.coef[a].Sign() != 0 {
			as = append(as, a)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	if len(as) == 0 {
		return IntB(l.k)
	}
	if len(as) == 1 && l.k.Sign() == 0 && l.coef[as[0]].Cmp(bigOne) == 0 {
		return as[0]
	}
	cs := make([]*big.Int, len(as))
	for i, a := range as {
		cs[i] = l.coef[a]
	}
	return mk(Term{Op: OLin, Args: as, Coef: cs, K: new(big.Int).Set(l.k), Sort: SInt})
}

var bigOne = big.NewInt(1)
var bigM1 = big.NewInt(-1)

func linOf(t *Term) *linear { l := newLin(); l.add(t, bigOne); return l }

func Add(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.add(t, bigOne)
	}
	return l.term()
}
func Sub(a, b *Term) *Term { l := newLin(); l.add(a, bigOne); l.add(b, bigM1); return l.term() }
func Neg(a *Term) *Term    { l := newLin(); l.add(a, bigM1); return l.term() }
func Scale(a *Term, c *big.Int) *Term {
	l := newLin()
	l.add(a, c)
	return l.term()
}
func AddK(a *Term, k int64) *Term { return Add(a, Int(k)) }

type mono struct {
	a *Term
	c *big.Int
}

func monos(t *Term) []mono {
	switch t.Op {
	case OConst:
		return []mono{{nil, t.K}}
	case OLin:
		var out []mono
		if t.K.Sign() != 0 {
			out = append(out, mono{nil, t.K})
		}
		for i, a := range t.Args {
			out = append(out, mono{a, t.Coef[i]})
		}
		return out
	}
	return []mono{{t, bigOne}}
}
func factors(a *Term) []*Term {
	if a == nil {
		return nil
	}
	if a.Op == OMul {
		return a.Args
	}
	return []*Term{a}
}
func Mul(a, b *Term) *Term {
	if a.Op == OConst {
		return Scale(b, a.K)
	}
	if b.Op == OConst {
		return Scale(a, b.K)
	}
	// distribute an if-then-else of two constants? keep atoms
	ma, mb := monos(a), monos(b)
	if len(ma)*len(mb) > 4000 {
		return mk(Term{Op: OMul, Args: sorted2(a, b), Sort: SInt})
	}
	l := newLin()
	for _, x := range ma {
		for _, y := range mb {
			c := new(big.Int).Mul(x.c, y.c)
			fs := append(append([]*Term{}, factors(x.a)...), factors(y.a)...)
			switch len(fs) {
			case 0:
				l.k.Add(l.k, c)
			case 1:
				l.add1(fs[0], c)
			default:
				sort.Slice(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
				l.add1(mk(Term{Op: OMul, Args: fs, Sort: SInt}), c)
			}
		}
	}
	return l.term()
}
func sorted2(a, b *Term) []*Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	return []*Term{a, b}
}

func floorDiv(a, b *big.Int) *big.Int { // Euclidean for b>0
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m)
	return q
}
func eucMod(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m)
	return m
}

// Div and Mod follow SMT-LIB (Euclidean) semantics; the executor uses them with positive divisors.
func Div(a, b *Term) *Term {
	if b.Op == OConst && b.K.Sign() > 0 {
		if b.K.Cmp(bigOne) == 0 {
			return a
		}
		if a.Op == OConst {
			return IntB(floorDiv(a.K, b.K))
		}
		lo, hi := Range(a)
		if lo != nil && hi != nil && floorDiv(lo, b.K).Cmp(floorDiv(hi, b.K)) == 0 {
			return IntB(floorDiv(lo, b.K))
		}
		if a.Op == ODiv && a.Args[1].Op == OConst && a.Args[1].K.Sign() > 0 {
			return Div(a.Args[0], IntB(new(big.Int).Mul(a.Args[1].K, b.K)))
		}
		// (x mod m) div b with b | m  =>  (x div b) mod (m/b)
		if a.Op == OMod && a.Args[1].Op == OConst {
			m := a.Args[1].K
			if new(big.Int).Mod(m, b.K).Sign() == 0 {
				return Mod(Div(a.Args[0], b), IntB(new(big.Int).Div(m, b.K)))
			}
		}
		// split off multiples of b:  (b*q + r) div b = q + r div b
		if a.Op == OLin {
			q, r := newLin(), newLin()
			kq, kr := new(big.Int), new(big.Int)
			kq.DivMod(a.K, b.K, kr)
			q.k.Set(kq)
			r.k.Set(kr)
			split := kq.Sign() != 0
			for i, at := range a.Args {
				m := new(big.Int).Mod(a.Coef[i], b.K)
				if m.Sign() == 0 {
					q.add1(at, new(big.Int).Div(a.Coef[i], b.K))
					split = true
				} else {
					r.add1(at, a.Coef[i])
				}
			}
			if split {
				return Add(q.term(), Div(r.term(), b))
			}
			// common factor
			g := new(big.Int).Abs(b.K)
			for _, c := range a.Coef {
				g.GCD(nil, nil, g, new(big.Int).Abs(c))
			}
			if g.Cmp(bigOne) > 0 {
				l := newLin()
				l.k = floorDiv(a.K, g)
				for i, at := range a.Args {
					l.add1(at, new(big.Int).Div(a.Coef[i], g))
				}
				return Div(l.term(), IntB(new(big.Int).Div(b.K, g)))
			}
		}
	}
	return mk(Term{Op: ODiv, Args: []*Term{a, b}, Sort: SInt})
}

// sameModulus: x mod m can be replaced by x under a sum or product taken mod b.
func sameModulus(m, b *Term) bool {
	return m == b || m.isConst() && b.isConst() && b.K.Sign() > 0 && new(big.Int).Mod(m.K, b.K).Sign() == 0
}

// stripMods removes the reductions by b from the factors of the polynomial a.
func stripMods(a, b *Term) *Term {
	hit := false
	for _, m := range monos(a) {
		for _, f := range factors(m.a) {
			if f.Op == OMod && sameModulus(f.Args[1], b) {
				hit = true
			}
		}
	}
	if !hit {
		return a
	}
	r := Zero
	for _, m := range monos(a) {
		t := IntB(m.c)
		for _, f := range factors(m.a) {
			if f.Op == OMod && sameModulus(f.Args[1], b) {
				f = f.Args[0]
			}
			t = Mul(t, f)
		}
		r = Add(r, t)
	}
	if len(monos(r)) > 3000 {
		return a
	}
	return r
}

func Mod(a, b *Term) *Term {
	if b.isConst() && b.K.BitLen() > 64 {
		a = stripMods(a, b)
	}
	if b.Op == OConst && b.K.Sign() > 0 {
		if a.Op == OConst {
			return IntB(eucMod(a.K, b.K))
		}
		if b.K.Cmp(bigOne) == 0 {
			return Zero
		}
		lo, hi := Range(a)
		if lo != nil && hi != nil {
			ql, qh := floorDiv(lo, b.K), floorDiv(hi, b.K)
			if ql.Cmp(qh) == 0 {
				return Sub(a, IntB(new(big.Int).Mul(ql, b.K)))
			}
		}
		if a.Op == OMod && a.Args[1].Op == OConst {
			if new(big.Int).Mod(a.Args[1].K, b.K).Sign() == 0 {
				return Mod(a.Args[0], b)
			}
		}
		if a.Op == OLin {
			r := newLin()
			r.k = eucMod(a.K, b.K)
			ch := r.k.Cmp(a.K) != 0
			for i, at := range a.Args {
				m := eucMod(a.Coef[i], b.K)
				if m.Sign() == 0 {
					ch = true
					continue
				}
				if at.Op == OMod && at.Args[1].Op == OConst && new(big.Int).Mod(at.Args[1].K, b.K).Sign() == 0 {
					r.add(at.Args[0], m)
					ch = true
					continue
				}
				// keep the representative of smaller magnitude
				m2 := new(big.Int).Sub(m, b.K)
				if new(big.Int).Abs(m2).Cmp(m) < 0 {
					m = m2
				}
				if m.Cmp(a.Coef[i]) != 0 {
					ch = true
				}
				r.add1(at, m)
			}
			if ch {
				return Mod(r.term(), b)
			}
		}
		if a.Op == OIte {
			if a.Args[1].Op == OConst && a.Args[2].Op == OConst {
				return Ite(a.Args[0], Mod(a.Args[1], b), Mod(a.Args[2], b))
			}
		}
	}
	return mk(Term{Op: OMod, Args: []*Term{a, b}, Sort: SInt})
}

// ---- ranges

func Range(t *Term) (lo, hi *big.Int) {
	if t.rdone {
		return t.lo, t.hi
	}
	lo, hi = range0(t)
	tmu.Lock()
	t.lo, t.hi, t.rdone = lo, hi, true
	tmu.Unlock()
	return
}

var maxLen = new(big.Int).Lsh(bigOne, 48)
var maxMake = new(big.Int).Lsh(bigOne, 52)

func range0(t *Term) (lo, hi *big.Int) {
	switch t.Op {
	case OConst:
		return t.K, t.K
	case OVar:
		tmu.Lock()
		r, ok := varRange[t.Name]
		tmu.Unlock()
		if ok {
			return r.lo, r.hi
		}
	case OApp:
		if r, ok := appRange(t); ok {
			return r.lo, r.hi
		}
	case OLin:
		lo, hi = new(big.Int).Set(t.K), new(big.Int).Set(t.K)
		for i, a := range t.Args {
			l, h := Range(a)
			c := t.Coef[i]
			if c.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(c, l))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(c, h))
				}
			}
		}
		return
	case OMul:
		lo, hi = bigOne, bigOne
		for _, a := range t.Args {
			l, h := Range(a)
			if l == nil || h == nil || l.Sign() < 0 {
				if l != nil && l.Sign() >= 0 && lo != nil && lo.Sign() >= 0 {
					lo = new(big.Int).Mul(lo, l)
					hi = nil
					continue
				}
				return nil, nil
			}
			if lo != nil {
				lo = new(big.Int).Mul(lo, l)
			}
			if hi != nil {
				hi = new(big.Int).Mul(hi, h)
			}
		}
		return
	case ODiv:
		if t.Args[1].Op == OConst && t.Args[1].K.Sign() > 0 {
			l, h := Range(t.Args[0])
			if l != nil {
				lo = floorDiv(l, t.Args[1].K)
			}
			if h != nil {
				hi = floorDiv(h, t.Args[1].K)
			}
			return
		}
		l, h := Range(t.Args[0])
		l2, _ := Range(t.Args[1])
		if l != nil && l.Sign() >= 0 && l2 != nil && l2.Sign() > 0 {
			return new(big.Int), h
		}
	case OMod:
		if t.Args[1].Op == OConst && t.Args[1].K.Sign() > 0 {
			hi := new(big.Int).Sub(t.Args[1].K, bigOne)
			l, h := Range(t.Args[0])
			if l != nil && l.Sign() >= 0 && h != nil && h.Cmp(hi) < 0 {
				hi = h
			}
			return new(big.Int), hi
		}
		l2, h2 := Range(t.Args[1])
		if l2 != nil && l2.Sign() > 0 {
			if h2 != nil {
				return new(big.Int), new(big.Int).Sub(h2, bigOne)
			}
			return new(big.Int), nil
		}
	case OIte:
		if t.Sort == SInt {
			l1, h1 := Range(t.Args[1])
			l2, h2 := Range(t.Args[2])
			if l1 != nil && l2 != nil {
				lo = l1
				if l2.Cmp(lo) < 0 {
					lo = l2
				}
			}
			if h1 != nil && h2 != nil {
				hi = h1
				if h2.Cmp(hi) > 0 {
					hi = h2
				}
			}
			return
		}
	case OLen:
		return new(big.Int), maxLen
	case OGet:
		if t.Args[0].Sort == SeqB {
			return new(big.Int), big.NewInt(255)
		}
		if t.Sort == SInt {
			if r, ok := elemRangeOf(t.Args[0]); ok {
				return r.lo, r.hi
			}
		}
	case OSel:
		if t.Sort == SInt {
			if b := baseVar(t.Args[0]); b != nil {
				tmu.Lock()
				r, ok := arrRange[b.Name]
				tmu.Unlock()
				if ok {
					return r.lo, r.hi
				}
			}
		}
	case OSum:
		// no bound
	}
	return nil, nil
}

func le0(a *Term) bool { _, h := Range(a); return h != nil && h.Sign() <= 0 }
func ge0(a *Term) bool { l, _ := Range(a); return l != nil && l.Sign() >= 0 }

// ---- booleans

func Ge0(a *Term) *Term {
	l, h := Range(a)
	if l != nil && l.Sign() >= 0 {
		return True
	}
	if h != nil && h.Sign() < 0 {
		return False
	}
	if a.Op == OIte && a.Args[1].Op == OConst && a.Args[2].Op == OConst {
		return Ite(a.Args[0], Ge0(a.Args[1]), Ge0(a.Args[2]))
	}
	if a.Op == OLin {
		g := new(big.Int)
		for _, c := range a.Coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bigOne) > 0 {
			ln := newLin()
			ln.k = floorDiv(a.K, g)
			for i, at := range a.Args {
				ln.add1(at, new(big.Int).Div(a.Coef[i], g))
			}
			return Ge0(ln.term())
		}
	}
	return mk(Term{Op: OGe0, Args: []*Term{a}, Sort: SBool})
}
func Le(a, b *Term) *Term { return Ge0(Sub(b, a)) }
func Lt(a, b *Term) *Term { return Ge0(AddK(Sub(b, a), -1)) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq of different sorts: %s : %s  vs  %s : %s", a, a.Sort.Name, b, b.Sort.Name))
	}
	switch a.Sort {
	case SInt:
		if a.Op == OIte && b.Op == OConst && (a.Args[1].Op == OConst || a.Args[2].Op == OConst) {
			return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
		}
		if b.Op == OIte && a.Op == OConst && (b.Args[1].Op == OConst || b.Args[2].Op == OConst) {
			return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
		}
		d := Sub(a, b)
		l, h := Range(d)
		if l != nil && l.Sign() > 0 || h != nil && h.Sign() < 0 {
			return False
		}
		if d.Op == OConst {
			return BoolT(d.K.Sign() == 0)
		}
		// canonical: lhs = d with positive leading coefficient == const
		if d.Op == OLin {
			g := new(big.Int)
			for _, c := range d.Coef {
				g.GCD(nil, nil, g, new(big.Int).Abs(c))
			}
			if d.Coef[0].Sign() < 0 {
				g.Neg(g)
			}
			if g.CmpAbs(bigOne) > 0 && new(big.Int).Mod(d.K, new(big.Int).Abs(g)).Sign() != 0 {
				return False
			}
			ln := newLin()
			for i, at := range d.Args {
				ln.add1(at, new(big.Int).Quo(d.Coef[i], g))
			}
			k := new(big.Int).Quo(d.K, g)
			k.Neg(k)
			return mk(Term{Op: OEq, Args: []*Term{ln.term(), IntB(k)}, Sort: SBool})
		}
		return mk(Term{Op: OEq, Args: []*Term{d, Zero}, Sort: SBool})
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	case SeqB, SeqI, SeqS:
		return seqEq(a, b)
	}
	args := sorted2(a, b)
	return mk(Term{Op: OEq, Args: args, Sort: SBool})
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return a.Args[0]
	case OGe0:
		return Ge0(AddK(Neg(a.Args[0]), -1))
	case OAnd:
		out := make([]*Term, len(a.Args))
		for i, x := range a.Args {
			out[i] = Not(x)
		}
		return Or(out...)
	case OOr:
		out := make([]*Term, len(a.Args))
		for i, x := range a.Args {
			out[i] = Not(x)
		}
		return And(out...)
	case OIte:
		return Ite(a.Args[0], Not(a.Args[1]), Not(a.Args[2]))
	case OForall:
		return mk(Term{Op: OExists, Args: []*Term{a.Args[0], a.Args[1], Not(a.Args[2])}, Sort: SBool})
	case OExists:
		return mk(Term{Op: OForall, Args: []*Term{a.Args[0], a.Args[1], Not(a.Args[2])}, Sort: SBool})
	}
	return mk(Term{Op: ONot, Args: []*Term{a}, Sort: SBool})
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		switch t.Op {
		case OTrue:
			return true
		case OFalse:
			return false
		case OAnd:
			for _, a := range t.Args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return mk(Term{Op: OAnd, Args: out, Sort: SBool})
}
func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		switch t.Op {
		case OFalse:
			return true
		case OTrue:
			return false
		case OOr:
			for _, a := range t.Args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[notRaw(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return mk(Term{Op: OOr, Args: out, Sort: SBool})
}
func notRaw(t *Term) *Term {
	if t.Op == OAnd || t.Op == OOr {
		return t // avoid deep recursion; syntactic clash not detected
	}
	return Not(t)
}
func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.Op == ONot {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.Op == OIte && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == OIte && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	// ite(c, x, ite(d, x, y)) = ite(c or d, x, y)
	if b.Op == OIte && b.Args[1] == a {
		return Ite(Or(c, b.Args[0]), a, b.Args[2])
	}
	// common prefix of concatenations
	if a.Sort.Seq {
		pa, pb := catParts(a), catParts(b)
		n := 0
		for n < len(pa) && n < len(pb) && pa[n] == pb[n] {
			n++
		}
		if n > 0 {
			return Cat(append(append([]*Term{}, pa[:n]...), Ite(c, CatS(a.Sort, pa[n:]...), CatS(a.Sort, pb[n:]...)))...)
		}
	}
	// common linear part
	if a.Sort == SInt && (a.Op == OLin || b.Op == OLin) {
		la, lb := linOf(a), linOf(b)
		com := newLin()
		for at, ca := range la.coef {
			if cb := lb.coef[at]; cb != nil && cb.Cmp(ca) == 0 {
				com.add1(at, ca)
			}
		}
		if len(com.atoms) > 0 {
			ct := com.term()
			return Add(ct, Ite(c, Sub(a, ct), Sub(b, ct)))
		}
	}
	return mk(Term{Op: OIte, Args: []*Term{c, a, b}, Sort: a.Sort})
}

// ---- sequences

func catParts(t *Term) []*Term {
	if t.Op == OCat {
		return t.Args
	}
	if t.Op == OLit && len(t.Args) == 0 {
		return nil
	}
	return []*Term{t}
}
func Empty(s *Sort) *Term { return mk(Term{Op: OLit, Sort: s}) }
func Lit(s *Sort, xs ...*Term) *Term {
	return mk(Term{Op: OLit, Args: xs, Sort: s})
}
func BytesLit(b []byte) *Term {
	xs := make([]*Term, len(b))
	for i, c := range b {
		xs[i] = Int(int64(c))
	}
	return Lit(SeqB, xs...)
}
func isEmpty(t *Term) bool { return t.Op == OLit && len(t.Args) == 0 }

func Cat(ts ...*Term) *Term {
	if len(ts) == 0 {
		panic("Cat of nothing")
	}
	return CatS(ts[0].Sort, ts...)
}
func CatS(s *Sort, ts ...*Term) *Term {
	var out []*Term
	push := func(p *Term) {
		if isEmpty(p) {
			return
		}
		if n := len(out); n > 0 {
			q := out[n-1]
			if q.Op == OLit && p.Op == OLit {
				out[n-1] = Lit(s, append(append([]*Term{}, q.Args...), p.Args...)...)
				return
			}
			// sub(x,a,b) ++ sub(x,b,c) = sub(x,a,c)  (valid when a<=b<=c<=len, which Sub keeps)
			if q.Op == OSub && p.Op == OSub && q.Args[0] == p.Args[0] && q.Args[2] == p.Args[1] {
				out[n-1] = mk(Term{Op: OSub, Args: []*Term{q.Args[0], q.Args[1], p.Args[2]}, Sort: s})
				if q.Args[1] == Zero && p.Args[2] == Len(q.Args[0]) {
					out[n-1] = q.Args[0]
				}
				return
			}
			// bigcat(lo,k) ++ E(k) = bigcat(lo,k+1) when lo<=k ; tab likewise
			if (q.Op == OTab || q.Op == OBigcat) && ge0(Sub(q.Args[1], q.Args[0])) {
				if q.Op == OTab && p.Op == OTab && p.Args[0] == q.Args[1] && p.Args[2] == q.Args[2] {
					out[n-1] = mk(Term{Op: OTab, Args: []*Term{q.Args[0], p.Args[1], q.Args[2]}, Sort: s})
					return
				}
				if q.Op == OTab && p.Op == OLit && len(p.Args) == 1 && instantiate(q.Args[2], q.Args[1]) == p.Args[0] {
					out[n-1] = mk(Term{Op: OTab, Args: []*Term{q.Args[0], AddK(q.Args[1], 1), q.Args[2]}, Sort: s})
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, t := range ts {
		if t.Sort != s {
			panic(fmt.Sprintf("Cat sort mismatch %s: %s vs %s", t, t.Sort.Name, s.Name))
		}
		for _, p := range catParts(t) {
			push(p)
		}
	}
	// fold E(k) into bigcat: a bigcat followed by the parts of its own next element
	for again := true; again; {
		again = false
		for i, q := range out {
			if q.Op != OBigcat || !ge0(Sub(q.Args[1], q.Args[0])) {
				continue
			}
			e := catParts(instantiate(q.Args[2], q.Args[1]))
			if len(e) == 0 || i+1+len(e) > len(out) {
				continue
			}
			ok := true
			for j, x := range e {
				if out[i+1+j] != x {
					ok = false
					break
				}
			}
			if ok {
				nb := mk(Term{Op: OBigcat, Args: []*Term{q.Args[0], AddK(q.Args[1], 1), q.Args[2]}, Sort: s})
				out = append(append(append([]*Term{}, out[:i]...), nb), out[i+1+len(e):]...)
				again = true
				break
			}
		}
	}
	switch len(out) {
	case 0:
		return Empty(s)
	case 1:
		return out[0]
	}
	return mk(Term{Op: OCat, Args: out, Sort: s})
}

func Len(s *Term) *Term {
	switch s.Op {
	case OLit:
		return Int(int64(len(s.Args)))
	case OCat:
		l := newLin()
		for _, p := range s.Args {
			l.add(Len(p), bigOne)
		}
		return l.term()
	case OSub:
		return Sub(s.Args[2], s.Args[1])
	case OUpd:
		return Len(s.Args[0])
	case ORep:
		if ge0(s.Args[0]) {
			return s.Args[0]
		}
		return Ite(Ge0(s.Args[0]), s.Args[0], Zero)
	case OTab:
		d := Sub(s.Args[1], s.Args[0])
		if ge0(d) {
			return d
		}
		return Ite(Ge0(d), d, Zero)
	case OIte:
		a, b := Len(s.Args[1]), Len(s.Args[2])
		if a == b {
			return a
		}
		return Ite(s.Args[0], a, b)
	case OBigcat:
		// constant-length elements
		e := Len(s.Args[2])
		if e.maxBV == 0 {
			d := Sub(s.Args[1], s.Args[0])
			if ge0(d) {
				return Mul(d, e)
			}
			if e.Op == OConst {
				return Ite(Ge0(d), Mul(d, e), Zero)
			}
		}
		return mk(Term{Op: OLen, Args: []*Term{s}, Sort: SInt})
	case OApp:
		if l := appLen(s); l != nil {
			return l
		}
	}
	return mk(Term{Op: OLen, Args: []*Term{s}, Sort: SInt})
}

// Decider lets term construction ask whether a condition is implied by the current path.
type Decider func(c *Term) bool

func tri(c *Term, d Decider) (yes, no bool) {
	if c == True {
		return true, false
	}
	if c == False {
		return false, true
	}
	if d == nil || c.maxBV > 0 {
		return false, false
	}
	if d(c) {
		return true, false
	}
	return false, d(Not(c))
}
func known(c *Term, d Decider) bool {
	if c == True {
		return true
	}
	if c == False || d == nil || c.maxBV > 0 {
		return false
	}
	return d(c)
}

func Get(s, i *Term, d Decider) *Term {
	switch s.Op {
	case OLit:
		if k, ok := i.Int64(); ok && k >= 0 && k < int64(len(s.Args)) {
			return s.Args[k]
		}
	case OCat:
		off := Zero
		for n, p := range s.Args {
			end := Add(off, Len(p))
			if n == len(s.Args)-1 {
				if known(Ge(i, off), d) {
					return Get(p, Sub(i, off), d)
				}
				break
			}
			yes, no := tri(Lt(i, end), d)
			if yes {
				// i>=off holds by construction (previous "no" answers)
				return Get(p, Sub(i, off), d)
			}
			if !no {
				break
			}
			off = end
		}
	case OSub:
		return Get(s.Args[0], Add(s.Args[1], i), d)
	case OUpd:
		yes, no := tri(Eq(s.Args[1], i), d)
		if yes {
			return s.Args[2]
		}
		if no {
			return Get(s.Args[0], i, d)
		}
	case ORep:
		return s.Args[1]
	case OTab:
		return instantiate(s.Args[2], Add(s.Args[0], i))
	case OIte:
		return Ite(s.Args[0], Get(s.Args[1], i, d), Get(s.Args[2], i, d))
	case OApp:
		if t := appGet(s, i); t != nil {
			return t
		}
	}
	return mk(Term{Op: OGet, Args: []*Term{s, i}, Sort: s.Sort.Elem})
}

// SubSeq is s[lo:hi]; the caller guarantees 0<=lo<=hi<=len(s).
func SubSeq(s, lo, hi *Term, d Decider) *Term {
	if lo == hi {
		return Empty(s.Sort)
	}
	if lo == Zero && hi == Len(s) {
		return s
	}
	switch s.Op {
	case OLit:
		a, ok1 := lo.Int64()
		b, ok2 := hi.Int64()
		if ok1 && ok2 && 0 <= a && a <= b && b <= int64(len(s.Args)) {
			return Lit(s.Sort, s.Args[a:b]...)
		}
		same := len(s.Args) > 1
		for _, x := range s.Args {
			same = same && x == s.Args[0]
		}
		if same && known(Ge0(Sub(hi, lo)), d) {
			return Rep(Sub(hi, lo), s.Args[0], s.Sort)
		}
	case OSub:
		return SubSeq(s.Args[0], Add(s.Args[1], lo), Add(s.Args[1], hi), d)
	case ORep:
		return Rep(Sub(hi, lo), s.Args[1], s.Sort)
	case OTab:
		return mk(Term{Op: OTab, Args: []*Term{Add(s.Args[0], lo), Add(s.Args[0], hi), s.Args[2]}, Sort: s.Sort})
	case OIte:
		return Ite(s.Args[0], SubSeq(s.Args[1], lo, hi, d), SubSeq(s.Args[2], lo, hi, d))
	case OUpd:
		_, inLo := tri(Le(lo, s.Args[1]), d)
		if inLo {
			return SubSeq(s.Args[0], lo, hi, d)
		}
		_, inHi := tri(Lt(s.Args[1], hi), d)
		if inHi {
			return SubSeq(s.Args[0], lo, hi, d)
		}
		if known(Le(lo, s.Args[1]), d) && known(Lt(s.Args[1], hi), d) {
			return Upd(SubSeq(s.Args[0], lo, hi, d), Sub(s.Args[1], lo), s.Args[2], d)
		}
	case OCat:
		parts := s.Args
		// drop leading parts wholly before lo
		off := Zero
		i := 0
		for i < len(parts) {
			end := Add(off, Len(parts[i]))
			yes, no := tri(Le(end, lo), d)
			if yes {
				off = end
				i++
				continue
			}
			if !no && lo != off {
				goto raw
			}
			break
		}
		if i == len(parts) {
			return Empty(s.Sort)
		}
		{
			// drop trailing parts wholly after hi
			var out []*Term
			o := off
			for ; i < len(parts); i++ {
				end := Add(o, Len(parts[i]))
				if o == hi {
					return catOr(s.Sort, out)
				}
				yes, no := tri(Le(end, hi), d)
				a := Zero
				if len(out) == 0 {
					a = Sub(lo, o)
				}
				if yes {
					out = append(out, SubSeq(parts[i], a, Len(parts[i]), d))
					if a != Zero && isEmpty(out[0]) {
						out = out[:0]
						lo = end
					}
					o = end
					continue
				}
				if no {
					if known(Ge(o, hi), d) { // hi falls before this part
						return catOr(s.Sort, out)
					}
					out = append(out, SubSeq(parts[i], a, Sub(hi, o), d))
					return catOr(s.Sort, out)
				}
				if i == len(parts)-1 { // hi <= len(s) by contract of SubSeq
					if known(Ge(hi, o), d) {
						out = append(out, SubSeq(parts[i], a, Sub(hi, o), d))
						return catOr(s.Sort, out)
					}
				}
				goto raw
			}
			return catOr(s.Sort, out)
		}
	case OBigcat:
		// head unfolding: s = E(lo) ++ bigcat(lo+1,hi)
		if d != nil && known(Lt(s.Args[0], s.Args[1]), d) {
			return SubSeq(unfoldHead(s), lo, hi, d)
		}
	}
raw:
	return mk(Term{Op: OSub, Args: []*Term{s, lo, hi}, Sort: s.Sort})
}
func catOr(s *Sort, out []*Term) *Term { return CatS(s, out...) }

func unfoldHead(s *Term) *Term {
	e := instantiate(s.Args[2], s.Args[0])
	return Cat(e, Bigcat(AddK(s.Args[0], 1), s.Args[1], s.Args[2]))
}

func Upd(s, i, v *Term, d Decider) *Term {
	if s.Op == OLit {
		if k, ok := i.Int64(); ok && k >= 0 && k < int64(len(s.Args)) {
			xs := append([]*Term{}, s.Args...)
			xs[k] = v
			return Lit(s.Sort, xs...)
		}
	}
	if s.Op == ORep {
		if n, ok := s.Args[0].Int64(); ok && n <= 256 {
			xs := make([]*Term, n)
			for k := range xs {
				xs[k] = s.Args[1]
			}
			return Upd(Lit(s.Sort, xs...), i, v, d)
		}
	}
	if s.Op == OUpd && s.Args[1] == i {
		return Upd(s.Args[0], i, v, d)
	}
	if s.Op == OCat {
		off := Zero
		for n, p := range s.Args {
			end := Add(off, Len(p))
			yes, no := tri(Lt(i, end), d)
			if n == len(s.Args)-1 {
				yes = true
			}
			if yes {
				out := append([]*Term{}, s.Args...)
				out[n] = Upd(p, Sub(i, off), v, d)
				return Cat(out...)
			}
			if !no {
				break
			}
			off = end
		}
	}
	if k, ok := i.Int64(); ok && k >= 0 && (s.Op == OUpd || k == 0) {
		if n, ok := Len(s).Int64(); ok && n <= 32 && k == n-1 || s.Op == OUpd && ok && n <= 32 {
			// every cell of a short sequence overwritten
			xs := make([]*Term, n)
			if k < n {
				xs[k] = v
			}
			left := n - 1
			for u := s; u.Op == OUpd; u = u.Args[0] {
				j, ok := u.Args[1].Int64()
				if !ok {
					break
				}
				if j >= 0 && j < n && xs[j] == nil {
					xs[j] = u.Args[2]
					left--
				}
			}
			if left == 0 {
				return Lit(s.Sort, xs...)
			}
		}
	}
	// next cell of a prefix-tabulated sequence: tab(0,k) ++ rep(n-k)  handled by the loop solver
	return mk(Term{Op: OUpd, Args: []*Term{s, i, v}, Sort: s.Sort})
}

func Rep(n, v *Term, s *Sort) *Term {
	if k, ok := n.Int64(); ok && k <= 512 {
		if k <= 0 {
			return Empty(s)
		}
		if k <= 64 {
			xs := make([]*Term, k)
			for i := range xs {
				xs[i] = v
			}
			return Lit(s, xs...)
		}
	}
	return mk(Term{Op: ORep, Args: []*Term{n, v}, Sort: s})
}

// body has de Bruijn index 0 for the bound integer
func Tab(lo, hi, body *Term, s *Sort) *Term {
	if lo == hi {
		return Empty(s)
	}
	// tab of consecutive elements of x is a subsequence of x
	if body.Op == OGet && body.Args[0].maxBV == 0 && body.Args[0].Sort == s {
		idx := body.Args[1]
		off := Sub(idx, BV(0, SInt))
		if off.maxBV == 0 {
			x := body.Args[0]
			a, b := Add(lo, off), Add(hi, off)
			if a == Zero && b == Len(x) {
				return x
			}
			if ge0(a) && ge0(Sub(b, a)) && ge0(Sub(Len(x), b)) {
				return SubSeq(x, a, b, nil)
			}
		}
	}
	if body.maxBV == 0 {
		return Rep(Sub(hi, lo), body, s)
	}
	if n, ok := Sub(hi, lo).Int64(); ok && n <= 64 {
		var xs []*Term
		for i := int64(0); i < n; i++ {
			xs = append(xs, instantiate(body, AddK(lo, i)))
		}
		return Lit(s, xs...)
	}
	return mk(Term{Op: OTab, Args: []*Term{lo, hi, body}, Sort: s})
}
func Bigcat(lo, hi, body *Term) *Term {
	if lo == hi {
		return Empty(body.Sort)
	}
	if body.Op == OLit && len(body.Args) == 1 {
		return Tab(lo, hi, body.Args[0], body.Sort)
	}
	if isEmpty(body) {
		return body
	}
	return mk(Term{Op: OBigcat, Args: []*Term{lo, hi, body}, Sort: body.Sort})
}
func Sum(lo, hi, body *Term) *Term {
	if lo == hi {
		return Zero
	}
	if body.maxBV == 0 && ge0(Sub(hi, lo)) {
		return Mul(Sub(hi, lo), body)
	}
	// split linear bodies so that sums of parts are shared
	if body.Op == OLin {
		l := newLin()
		if body.K.Sign() != 0 {
			l.add(Sum(lo, hi, IntB(body.K)), bigOne)
		}
		for i, a := range body.Args {
			l.add(Sum(lo, hi, a), body.Coef[i])
		}
		return l.term()
	}
	return mk(Term{Op: OSum, Args: []*Term{lo, hi, body}, Sort: SInt})
}
func Forall(lo, hi, body *Term) *Term {
	if body == True || le0(Sub(hi, lo)) {
		return True
	}
	if n, ok := Sub(hi, lo).Int64(); ok && n <= 8 {
		var xs []*Term
		for i := int64(0); i < n; i++ {
			xs = append(xs, instantiate(body, AddK(lo, i)))
		}
		return And(xs...)
	}
	return mk(Term{Op: OForall, Args: []*Term{lo, hi, body}, Sort: SBool})
}
func Exists(lo, hi, body *Term) *Term { return Not(Forall(lo, hi, Not(body))) }
func ForallS(s *Sort, body *Term) *Term {
	if body.maxBV == 0 {
		return body
	}
	return mk(Term{Op: OForallS, Args: []*Term{body}, Sort: SBool, BSort: s})
}

// seqEq normalises an equality between sequences: cancels equal prefix and suffix parts.
func seqEq(a, b *Term) *Term {
	pa, pb := catParts(a), catParts(b)
	if a.Op == OCat || b.Op == OCat || a.Op == OLit || b.Op == OLit {
		la, lb := Len(a), Len(b)
		if Eq(la, lb) == False {
			return False
		}
		var conj []*Term
		pa, pb = append([]*Term{}, pa...), append([]*Term{}, pb...)
		for len(pa) > 0 && len(pb) > 0 {
			x, y := pa[0], pb[0]
			if x == y {
				pa, pb = pa[1:], pb[1:]
				continue
			}
			if x.Op == OLit && y.Op == OLit {
				n := len(x.Args)
				if len(y.Args) < n {
					n = len(y.Args)
				}
				for i := 0; i < n; i++ {
					conj = append(conj, Eq(x.Args[i], y.Args[i]))
				}
				pa[0], pb[0] = Lit(x.Sort, x.Args[n:]...), Lit(y.Sort, y.Args[n:]...)
				if isEmpty(pa[0]) {
					pa = pa[1:]
				}
				if isEmpty(pb[0]) {
					pb = pb[1:]
				}
				continue
			}
			if lx, ly := Len(x), Len(y); lx == ly {
				conj = append(conj, mkEq(x, y))
				pa, pb = pa[1:], pb[1:]
				continue
			}
			break
		}
		for len(pa) > 0 && len(pb) > 0 {
			x, y := pa[len(pa)-1], pb[len(pb)-1]
			if x == y {
				pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
				continue
			}
			if lx, ly := Len(x), Len(y); lx == ly && !(x.Op == OLit && y.Op == OLit) {
				conj = append(conj, mkEq(x, y))
				pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
				continue
			}
			break
		}
		if len(pa) == 0 && len(pb) == 0 {
			return And(conj...)
		}
		if len(pa) == 0 || len(pb) == 0 {
			rest := pa
			if len(pa) == 0 {
				rest = pb
			}
			for _, r := range rest {
				conj = append(conj, Eq(Len(r), Zero))
			}
			return And(conj...)
		}
		x, y := CatS(a.Sort, pa...), CatS(a.Sort, pb...)
		conj = append(conj, mkEq(x, y))
		return And(conj...)
	}
	return mkEq(a, b)
}
func mkEq(x, y *Term) *Term {
	if x == y {
		return True
	}
	if (x.Op == OTab || x.Op == OBigcat) && y.Op == x.Op && x.Args[2] == y.Args[2] && x.Args[0] == y.Args[0] {
		if Eq(x.Args[1], y.Args[1]) == True {
			return True
		}
	}
	return mk(Term{Op: OEq, Args: sorted2(x, y), Sort: SBool})
}

// ---- arrays (heap fields)

func Sel(a, r *Term, d Decider) *Term {
	switch a.Op {
	case OSto:
		if b := refBound(r); b != nil && a.Args[1] != r && ge0(Sub(a.Args[1], b)) {
			return Sel(a.Args[0], r, d)
		}
		yes, no := tri(Eq(a.Args[1], r), d)
		if yes {
			return a.Args[2]
		}
		if no {
			return Sel(a.Args[0], r, d)
		}
	case OArrTab:
		// base start stride count body
		st, stride, n := a.Args[1], a.Args[2], a.Args[3]
		off := Sub(r, st)
		// below the range, or above it
		if yes, _ := tri(Lt(off, Zero), d); yes {
			return Sel(a.Args[0], r, d)
		}
		if yes, _ := tri(Ge(off, Mul(stride, n)), d); yes {
			return Sel(a.Args[0], r, d)
		}
		sk := stride.K
		dv := Div(off, stride)
		if new(big.Int).Set(sk).Cmp(bigOne) == 0 || Mod(off, stride) == Zero {
			if known(And(Ge0(dv), Lt(dv, n)), d) {
				return instantiate(a.Args[4], dv)
			}
		} else if m := Mod(off, stride); m.Op == OConst { // different slot
			return Sel(a.Args[0], r, d)
		}
	case OIte:
		return Ite(a.Args[0], Sel(a.Args[1], r, d), Sel(a.Args[2], r, d))
	}
	return mk(Term{Op: OSel, Args: []*Term{a, r}, Sort: a.Sort.Elem})
}

// refBound: a bound above a reference read out of memory that existed before, when one is recorded.
func refBound(t *Term) *Term {
	switch t.Op {
	case OSel:
		return arrBoundOf(t.Args[0])
	case OGet:
		s := t.Args[0]
		for s.Op == OSub {
			s = s.Args[0]
		}
		if s.Op == OVar {
			return arrBoundOf(s)
		}
		if s.Op == OSel {
			return arrBoundOf(s.Args[0])
		}
	}
	return nil
}

// arrBoundOf: the bound of every reference stored in an array (or sequence); writes of unbounded values lose it.
func arrBoundOf(a *Term) *Term {
	switch a.Op {
	case OVar:
		tmu.Lock()
		defer tmu.Unlock()
		return arrBound[a.Name]
	case OSto:
		b := arrBoundOf(a.Args[0])
		if b == nil || a.Args[2].Op == OConst && a.Args[2].K.Sign() <= 0 {
			return b
		}
		if c := refBound(a.Args[2]); c == b {
			return b
		}
	case OIte:
		b := arrBoundOf(a.Args[1])
		if b != nil && arrBoundOf(a.Args[2]) == b {
			return b
		}
	}
	return nil
}

func Sto(a, r, v *Term) *Term {
	if a.Op == OSto && a.Args[1] == r {
		a = a.Args[0]
	}
	if v.Op == OSel && v.Args[0] == a && v.Args[1] == r {
		return a
	}
	return mk(Term{Op: OSto, Args: []*Term{a, r, v}, Sort: a.Sort})
}

// ---- substitution

func shift(t *Term, by, cut int) *Term {
	if t.maxBV <= cut || by == 0 {
		return t
	}
	if t.Op == OBVar {
		return BV(t.Idx+by, t.Sort)
	}
	return rebuild(t, func(a *Term, last bool) *Term {
		c := cut
		if last && binder(t.Op) {
			c++
		}
		return shift(a, by, c)
	}, nil)
}

// instantiate replaces index 0 of body by v and lowers the others.
func instantiate(body, v *Term) *Term { return instAt(body, v, 0, nil, map[[2]int]*Term{}) }
func instantiateD(body, v *Term, d Decider) *Term {
	return instAt(body, v, 0, d, map[[2]int]*Term{})
}
func instAt(t, v *Term, depth int, d Decider, memo map[[2]int]*Term) *Term {
	if t.maxBV <= depth {
		return t
	}
	k := [2]int{t.ID, depth}
	if m := memo[k]; m != nil {
		return m
	}
	var r *Term
	if t.Op == OBVar {
		switch {
		case t.Idx == depth:
			r = shift(v, depth, 0)
		case t.Idx > depth:
			r = BV(t.Idx-1, t.Sort)
		default:
			r = t
		}
	} else {
		r = rebuild(t, func(a *Term, last bool) *Term {
			if last && binder(t.Op) {
				return instAt(a, v, depth+1, d, memo)
			}
			return instAt(a, v, depth, d, memo)
		}, d)
	}
	memo[k] = r
	return r
}

// abstract replaces the free variable x by index 0 (raising nothing else: t has no loose indices it must avoid).
func abstract(t, x *Term) *Term { return absAt(t, x, 0, map[[2]int]*Term{}) }
func absAt(t, x *Term, depth int, memo map[[2]int]*Term) *Term {
	if t == x {
		return BV(depth, x.Sort)
	}
	if len(t.Args) == 0 {
		if t.Op == OBVar && t.Idx >= depth {
			return BV(t.Idx+1, t.Sort)
		}
		return t
	}
	k := [2]int{t.ID, depth}
	if m := memo[k]; m != nil {
		return m
	}
	r := rebuild(t, func(a *Term, last bool) *Term {
		if last && binder(t.Op) {
			return absAt(a, x, depth+1, memo)
		}
		return absAt(a, x, depth, memo)
	}, nil)
	memo[k] = r
	return r
}

func occurs(t *Term, pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// substitute free variables
func substVars(t *Term, m map[*Term]*Term, d Decider) *Term {
	if len(m) == 0 {
		return t
	}
	return substM(t, m, 0, d, map[[2]int]*Term{})
}
func substM(t *Term, m map[*Term]*Term, depth int, d Decider, memo map[[2]int]*Term) *Term {
	if r, ok := m[t]; ok {
		return shift(r, depth, 0)
	}
	if len(t.Args) == 0 {
		return t
	}
	k := [2]int{t.ID, depth}
	if r := memo[k]; r != nil {
		return r
	}
	r := rebuild(t, func(a *Term, last bool) *Term {
		if last && binder(t.Op) {
			return substM(a, m, depth+1, d, memo)
		}
		return substM(a, m, depth, d, memo)
	}, d)
	memo[k] = r
	return r
}

func rebuild(t *Term, f func(a *Term, last bool) *Term, d Decider) *Term {
	n := len(t.Args)
	args := make([]*Term, n)
	ch := false
	for i, a := range t.Args {
		args[i] = f(a, i == n-1)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return remake(t, args, d)
}

func remake(t *Term, args []*Term, d Decider) *Term {
	switch t.Op {
	case OApp:
		return App(t.Name, t.Sort, args...)
	case OLin:
		l := newLin()
		l.k.Set(t.K)
		for i, a := range args {
			l.add(a, t.Coef[i])
		}
		return l.term()
	case OMul:
		r := args[0]
		for _, a := range args[1:] {
			r = Mul(r, a)
		}
		return r
	case ODiv:
		return Div(args[0], args[1])
	case OMod:
		return Mod(args[0], args[1])
	case OGe0:
		return Ge0(args[0])
	case OEq:
		return Eq(args[0], args[1])
	case OAnd:
		return And(args...)
	case OOr:
		return Or(args...)
	case ONot:
		return Not(args[0])
	case OIte:
		return Ite(args[0], args[1], args[2])
	case OLen:
		return Len(args[0])
	case OGet:
		return Get(args[0], args[1], d)
	case OCat:
		return CatS(t.Sort, args...)
	case OLit:
		return Lit(t.Sort, args...)
	case OSub:
		return SubSeq(args[0], args[1], args[2], d)
	case OUpd:
		return Upd(args[0], args[1], args[2], d)
	case ORep:
		return Rep(args[0], args[1], t.Sort)
	case OTab:
		return Tab(args[0], args[1], args[2], t.Sort)
	case OBigcat:
		return Bigcat(args[0], args[1], args[2])
	case OSum:
		return Sum(args[0], args[1], args[2])
	case OSel:
		return Sel(args[0], args[1], d)
	case OSto:
		return Sto(args[0], args[1], args[2])
	case OArrTab:
		return ArrTab(args[0], args[1], args[2], args[3], args[4])
	case OForall:
		return Forall(args[0], args[1], args[2])
	case OExists:
		return Exists(args[0], args[1], args[2])
	case OForallS:
		return ForallS(t.BSort, args[0])
	}
	panic("remake " + opNames[t.Op])
}

func ArrTab(base, start, stride, n, body *Term) *Term {
	if n == Zero {
		return base
	}
	return mk(Term{Op: OArrTab, Args: []*Term{base, start, stride, n, body}, Sort: base.Sort})
}

// ---- printing (debug)

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb, 0)
	s := sb.String()
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}
func (t *Term) write(sb *strings.Builder, depth int) {
	if sb.Len() > 6000 {
		return
	}
	switch t.Op {
	case OConst:
		sb.WriteString(t.K.String())
	case OTrue:
		sb.WriteString("true")
	case OFalse:
		sb.WriteString("false")
	case OVar:
		sb.WriteString(t.Name)
	case OBVar:
		fmt.Fprintf(sb, "$%d", t.Idx)
	case OLin:
		sb.WriteByte('(')
		for i, a := range t.Args {
			if i > 0 {
				sb.WriteString(" + ")
			}
			if t.Coef[i].Cmp(bigOne) != 0 {
				sb.WriteString(t.Coef[i].String() + "*")
			}
			a.write(sb, depth+1)
		}
		if t.K.Sign() != 0 {
			sb.WriteString(" + " + t.K.String())
		}
		sb.WriteByte(')')
	case OLit:
		allb := t.Sort == SeqB && len(t.Args) > 0
		for _, a := range t.Args {
			if !a.isConst() {
				allb = false
			}
		}
		if allb {
			sb.WriteString("x'")
			for _, a := range t.Args {
				fmt.Fprintf(sb, "%02x", a.K.Int64())
			}
			sb.WriteString("'")
			return
		}
		sb.WriteByte('[')
		for i, a := range t.Args {
			if i > 0 {
				sb.WriteString(", ")
			}
			a.write(sb, depth+1)
		}
		sb.WriteByte(']')
	default:
		n := opNames[t.Op]
		if t.Op == OApp {
			n = t.Name
		}
		sb.WriteString(n + "(")
		for i, a := range t.Args {
			if i > 0 {
				sb.WriteString(", ")
			}
			a.write(sb, depth+1)
		}
		sb.WriteByte(')')
	}
}
