package main

// Contract files (.cv): parsing and evaluation of specification expressions.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	Text string
	Expr ast.Expr
	Name string
	All  bool // of a mod clause: by values, not residues
}

type LoopSpec struct {
	Invs     []Clause
	Inst     []Clause // lemma instances assumed at the head
	Unroll   int
	ModAll   bool    // by its values instead
	Mod      *Clause // proofs about the iteration number go by its residues
	Symbolic bool
	Havoc    []string
	Bindings map[string]Clause
}

type Contract struct {
	Key        string
	Variant    string
	Props      []string
	File       string
	Line       int
	Req        []Clause
	Ens        []Clause
	Mods       []Clause
	ModAny     []string
	ModGlobs   map[string]bool
	Loops      map[int]*LoopSpec
	Inline     bool
	Trusted    string
	Allow      []string
	Fresh      bool
	Allocs     bool
	NoPanic    bool
	Where      []string
	Unfold     int
	Timeout    int
	Use        []string
	Inst       []Clause // lemma instances assumed at every return
	Assume     []Clause // unchecked assumptions, listed in the evidence
	MemLim     *Clause
	Mods2      [][2]Clause
	CallInline []string            // callees whose contracts are not used here
	Cases      []map[string]Clause // constant arguments: one verification per case, callers must be in one

	allocLimit func(ex *Exec, st *State, n, c *Term)
	modCache   []modLoc
	modDone    bool
}

type Macro struct {
	Name   string
	Params []string
	Body   ast.Expr
	Text   string
}

type Lemma struct {
	Name    string
	Vars    []string
	Sorts   []*Sort
	Req     []Clause
	Concl   Clause
	Ind     string
	Trig    []Clause
	Proved  bool
	Axiom   string
	Prop    []string
	Bits    []int // width of bounded integer parameters
	Timeout int
	Mods    [][2]Clause
	File    string
	Only    []string // proofs that may use it unasked
	BV      bool     // discharged over bit-vectors
	Inst    []Clause // instances of earlier lemmas
}

func (c *Contract) ID() string {
	if c.Variant != "" {
		return c.Key + "#" + c.Variant
	}
	return c.Key
}

type modLoc struct {
	key string
	ref *Term
	obj int
}

func (m modLoc) matches(key string) bool {
	return m.key == key || m.key != "" && (strings.HasPrefix(key, m.key+"#") || strings.HasPrefix(key, m.key+"."))
}

func (c *Contract) mods(ex *Exec) []modLoc {
	if c.modDone {
		return c.modCache
	}
	env := &specEnv{ex: ex, st: ex.old, old: ex.old, vars: map[string]SV{}, fn: ex.fn}
	for n, v := range ex.params {
		env.vars[n] = SV{V: v, T: ex.paramType(n)}
	}
	c.modCache = env.modLocs(c)
	c.modDone = true
	return c.modCache
}

func (ex *Exec) paramType(n string) types.Type {
	for i, p := range ex.fn.Params {
		if p.Name() == n || (n == "recv" && i == 0) {
			return p.Type()
		}
	}
	return nil
}

func (env *specEnv) modLocs(c *Contract) []modLoc {
	var out []modLoc
	for _, k := range c.ModAny {
		out = append(out, modLoc{key: k})
	}
	for _, m := range c.Mods {
		e := m.Expr
		if call, ok := e.(*ast.CallExpr); ok {
			if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "content" {
				v := env.eval(call.Args[0])
				if s, ok := v.V.(*SliceV); ok {
					if s.Obj > 0 {
						out = append(out, modLoc{obj: s.Obj})
					} else if s.HP != nil {
						out = append(out, modLoc{key: s.HP.Key, ref: s.HP.Ref})
					}
					continue
				}
			}
			if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "each" {
				// each(slice, field): the field of every object reachable at the moment of entry; any reference
				v := env.eval(call.Args[0])
				s := v.V.(*SliceV)
				el := s.Elem
				if p, ok := under(el).(*types.Pointer); ok {
					el = p.Elem()
				}
				out = append(out, modLoc{key: skey(el) + "." + call.Args[1].(*ast.Ident).Name})
				continue
			}
		}
		loc := env.lvalue(e)
		out = append(out, loc)
	}
	return out
}

func (env *specEnv) lvalue(e ast.Expr) modLoc {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		v := env.eval(x.X)
		if p, ok := v.V.(*PtrV); ok && p.Ref != nil {
			if isBigInt(p.T) {
				return modLoc{key: "big.$v", ref: p.Ref}
			}
			if u, ok := under(p.T).(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == x.Sel.Name {
						return modLoc{key: fieldKey(p.Key, u.Field(i), i), ref: p.Ref}
					}
				}
			}
			return modLoc{key: p.Key + "." + x.Sel.Name, ref: p.Ref}
		}
		l := env.lvalue(x.X)
		return modLoc{key: l.key + "." + x.Sel.Name, ref: l.ref}
	case *ast.Ident, *ast.IndexExpr, *ast.StarExpr, *ast.ParenExpr:
		if st, ok := x.(*ast.StarExpr); ok {
			e = st.X
		}
		v := env.eval(e)
		if p, ok := v.V.(*PtrV); ok && p.Ref != nil {
			if isBigInt(p.T) {
				return modLoc{key: "big.$v", ref: p.Ref}
			}
			return modLoc{key: p.Key, ref: p.Ref}
		}
		if iv, ok := v.V.(*IfaceV); ok {
			if h, ok := iv.V.(*HashV); ok {
				return modLoc{key: "hash.$data", ref: h.Ref}
			}
		}
	}
	env.bad(e, "not a location")
	return modLoc{}
}

func (c *Contract) mayModifyContent(ex *Exec, obj int) bool {
	for _, m := range c.mods(ex) {
		if m.obj == obj && obj != 0 {
			return true
		}
	}
	return false
}
func (c *Contract) allow(s string) bool {
	for _, a := range c.Allow {
		if a == s {
			return true
		}
	}
	return false
}

// ---- parsing

var reWord = regexp.MustCompile(`^[A-Za-z]+`)
var reInst = regexp.MustCompile(`^[a-z0-9_A-Z]+\(`)

func parseExpr(s string) (ast.Expr, error) {
	if strings.Contains(s, "==>") {
		r, err := rewriteImplies(s)
		if err != nil {
			return nil, err
		}
		s = r
	}
	return parser.ParseExpr(s)
}

// rewriteImplies turns a ==> b (right associative, weaker than every other operator)
// into implies(a, b), at every bracket level and in every argument.
func rewriteImplies(s string) (string, error) {
	var pieces []string // of the current level, split at commas
	var ops []string    // operands of the current piece, split at ==>
	var cur strings.Builder
	flush := func() {
		ops = append(ops, cur.String())
		cur.Reset()
	}
	endPiece := func() {
		flush()
		r := ops[len(ops)-1]
		for i := len(ops) - 2; i >= 0; i-- {
			r = "implies(" + ops[i] + ", " + r + ")"
		}
		pieces = append(pieces, r)
		ops = nil
	}
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '(' || c == '[' || c == '{':
			d, j := 0, i
			for ; j < len(s); j++ {
				switch s[j] {
				case '(', '[', '{':
					d++
				case ')', ']', '}':
					d--
				}
				if d == 0 {
					break
				}
			}
			if j == len(s) {
				return "", fmt.Errorf("unbalanced bracket")
			}
			in, err := rewriteImplies(s[i+1 : j])
			if err != nil {
				return "", err
			}
			cur.WriteByte(c)
			cur.WriteString(in)
			cur.WriteByte(s[j])
			i = j
		case c == ',':
			endPiece()
		case strings.HasPrefix(s[i:], "==>"):
			flush()
			i += 2
		default:
			cur.WriteByte(c)
		}
	}
	endPiece()
	return strings.Join(pieces, ","), nil
}

func mkClause(s string) (Clause, error) {
	name := ""
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "\"") {
		if i := strings.Index(s[1:], "\""); i >= 0 {
			name = s[1 : i+1]
			s = strings.TrimSpace(s[i+2:])
		}
	}
	e, err := parseExpr(s)
	if err != nil {
		return Clause{}, fmt.Errorf("%v in %q", err, s)
	}
	return Clause{Text: s, Expr: e, Name: name}, nil
}

var sortNames = map[string]*Sort{"int": SInt, "bool": SBool, "bytes": SeqB, "ints": SeqI, "seqs": SeqS}

func (e *Engine) loadContracts(dir string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.cv"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := e.loadFileSafe(f); err != nil {
			return err
		}
	}
	return nil
}

func (e *Engine) loadFileSafe(f string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s: %s", f, se.msg)
				return
			}
			panic(r)
		}
	}()
	return e.loadFile(f)
}

func (e *Engine) loadFile(f string) error {
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	// join continuation lines: a line starting with whitespace continues a clause when the clause is unbalanced
	var ct *Contract
	var lem *Lemma
	lines := strings.Split(string(b), "\n")
	for i := 0; i < len(lines); i++ {
		ln := lines[i]
		if k := strings.Index(ln, "//"); k >= 0 {
			ln = ln[:k]
		}
		no := i + 1
		for (unbalanced(ln) || strings.HasSuffix(strings.TrimSpace(ln), "\\")) && i+1 < len(lines) {
			i++
			nx := lines[i]
			if k := strings.Index(nx, "//"); k >= 0 {
				nx = nx[:k]
			}
			ln = strings.TrimSuffix(strings.TrimRight(ln, " \t"), "\\") + " " + strings.TrimSpace(nx)
		}
		s := strings.TrimSpace(ln)
		if s == "" {
			continue
		}
		w := reWord.FindString(s)
		rest := strings.TrimSpace(s[len(w):])
		fail := func(err error) error { return fmt.Errorf("%s:%d: %v", filepath.Base(f), no, err) }
		clause := func() (Clause, error) {
			c, err := mkClause(rest)
			if err != nil {
				return c, fail(err)
			}
			return c, nil
		}
		switch w {
		case "func":
			parts := strings.Fields(rest)
			ct = &Contract{Key: parts[0], File: filepath.Base(f), Line: no, Loops: map[int]*LoopSpec{}, Unfold: 2}
			lem = nil
			if len(parts) > 1 {
				ct.Variant = parts[1]
			}
			if e.contracts[ct.ID()] != nil {
				return fail(fmt.Errorf("duplicate contract %s", ct.ID()))
			}
			e.contracts[ct.ID()] = ct
		case "prop":
			if lem != nil {
				lem.Prop = strings.Fields(rest)
			} else {
				ct.Props = strings.Fields(rest)
			}
		case "requires":
			c, err := clause()
			if err != nil {
				return err
			}
			if lem != nil {
				lem.Req = append(lem.Req, c)
			} else {
				ct.Req = append(ct.Req, c)
			}
		case "case":
			m := map[string]Clause{}
			var ds []string
			for _, p := range splitTop(rest) {
				q := strings.SplitN(p, "=", 2)
				if len(q) != 2 {
					return fail(fmt.Errorf("bad case clause"))
				}
				c, err := mkClause(q[1])
				if err != nil {
					return fail(err)
				}
				n := strings.TrimSpace(q[0])
				m[n] = c
				ds = append(ds, n+" == "+c.Text)
			}
			ct.Cases = append(ct.Cases, m)
			d := "(" + strings.Join(ds, " && ") + ")"
			if len(ct.Cases) > 1 {
				d = ct.Req[len(ct.Req)-1].Text + " || " + d
				ct.Req = ct.Req[:len(ct.Req)-1]
			}
			c, err := mkClause(d)
			if err != nil {
				return fail(err)
			}
			ct.Req = append(ct.Req, c)
		case "assume":
			c, err := clause()
			if err != nil {
				return err
			}
			ct.Assume = append(ct.Assume, c)
		case "ensures":
			c, err := clause()
			if err != nil {
				return err
			}
			if lem != nil {
				lem.Concl = c
			} else {
				ct.Ens = append(ct.Ens, c)
			}
		case "modifies":
			if strings.HasPrefix(rest, "any ") {
				ct.ModAny = append(ct.ModAny, strings.Fields(rest)[1:]...)
				continue
			}
			if strings.HasPrefix(rest, "global ") {
				ct.ModGlobs = map[string]bool{}
				for _, g := range strings.Fields(rest)[1:] {
					ct.ModGlobs[g] = true
				}
				continue
			}
			for _, p := range splitTop(rest) {
				c, err := mkClause(p)
				if err != nil {
					return fail(err)
				}
				ct.Mods = append(ct.Mods, c)
			}
		case "loop":
			var n int
			var kw string
			fs := strings.Fields(rest)
			if len(fs) < 2 {
				return fail(fmt.Errorf("bad loop clause"))
			}
			fmt.Sscan(fs[0], &n)
			kw = fs[1]
			ls := ct.Loops[n]
			if ls == nil {
				ls = &LoopSpec{}
				ct.Loops[n] = ls
			}
			arg := strings.TrimSpace(strings.SplitN(rest, kw, 2)[1])
			switch kw {
			case "invariant":
				c, err := mkClause(arg)
				if err != nil {
					return fail(err)
				}
				ls.Invs = append(ls.Invs, c)
			case "unroll":
				fmt.Sscan(arg, &ls.Unroll)
			case "mod", "cases":
				ls.ModAll = kw == "cases"
				c, err := mkClause(arg)
				if err != nil {
					return fail(err)
				}
				ls.Mod = &c
			case "symbolic":
				ls.Symbolic = true
			case "use":
				for _, u := range splitTop(arg) {
					c, err := mkClause(u)
					if err != nil {
						return fail(err)
					}
					ls.Inst = append(ls.Inst, c)
				}
			case "havoc":
				ls.Havoc = append(ls.Havoc, strings.Fields(arg)...)
			default:
				return fail(fmt.Errorf("unknown loop clause %s", kw))
			}
		case "mod", "cases":
			ps := splitTop(rest)
			if len(ps) != 2 {
				return fail(fmt.Errorf("mod EXPR, N"))
			}
			a, err := mkClause(ps[0])
			if err != nil {
				return fail(err)
			}
			b, err := mkClause(ps[1])
			if err != nil {
				return fail(err)
			}
			a.All = w == "cases"
			if lem != nil {
				lem.Mods = append(lem.Mods, [2]Clause{a, b})
			} else {
				ct.Mods2 = append(ct.Mods2, [2]Clause{a, b})
			}
		case "inline":
			ct.Inline = true
		case "unfold":
			fmt.Sscan(rest, &ct.Unfold)
		case "timeout":
			if lem != nil {
				fmt.Sscan(rest, &lem.Timeout)
			} else {
				fmt.Sscan(rest, &ct.Timeout)
			}
		case "use":
			if reInst.MatchString(rest) {
				for _, u := range splitTop(rest) {
					c, err := mkClause(u)
					if err != nil {
						return fail(err)
					}
					if lem != nil {
						lem.Inst = append(lem.Inst, c)
					} else {
						ct.Inst = append(ct.Inst, c)
					}
				}
			} else if lem == nil {
				ct.Use = append(ct.Use, strings.Fields(rest)...)
			}
		case "trusted":
			ct.Trusted = rest
			if rest == "" {
				ct.Trusted = "assumed"
			}
		case "allow":
			ct.Allow = append(ct.Allow, rest)
		case "allocs":
			ct.Allocs = true
		case "inlinecalls":
			ct.CallInline = strings.Fields(rest)
		case "spec", "opaque", "rec":
			lem = nil
			typed := w != "spec"
			if typed && strings.HasPrefix(rest, "spec ") {
				rest = strings.TrimSpace(rest[5:])
			}
			if err := e.parseSpec(rest, typed, w == "rec"); err != nil {
				return fail(err)
			}
		case "lemma", "axiom":
			// lemma name(x int, y bytes)
			l, err := parseLemmaHead(rest)
			if err != nil {
				return fail(err)
			}
			if w == "axiom" {
				l.Axiom = "assumed"
			}
			lem = l
			l.File = filepath.Base(f)
			e.lemmas = append(e.lemmas, l)
		case "trigger":
			for _, p := range splitTop(rest) {
				c, err := mkClause(p)
				if err != nil {
					return fail(err)
				}
				lem.Trig = append(lem.Trig, c)
			}
		case "only":
			lem.Only = strings.Fields(rest)
		case "induction":
			lem.Ind = rest
		case "bv":
			lem.BV = true
		case "because":
			lem.Axiom = rest
		default:
			return fail(fmt.Errorf("unknown clause %q", w))
		}
	}
	return nil
}

func unbalanced(s string) bool {
	d := 0
	in := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if in != 0 {
			if c == '\\' && in == '"' {
				i++
			} else if c == in {
				in = 0
			}
			continue
		}
		switch c {
		case '"', '\'':
			in = c
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
	}
	return d > 0
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return out
}

func parseLemmaHead(s string) (*Lemma, error) {
	i := strings.IndexByte(s, '(')
	j := strings.LastIndexByte(s, ')')
	if i < 0 || j < i {
		return nil, fmt.Errorf("bad lemma head")
	}
	l := &Lemma{Name: strings.TrimSpace(s[:i])}
	for _, p := range splitTop(s[i+1 : j]) {
		f := strings.Fields(p)
		bits := 0
		if len(f) == 2 && len(f[1]) > 1 && f[1][0] == 'u' { // u30: an integer below 2^30
			fmt.Sscan(f[1][1:], &bits)
			if bits > 0 {
				f[1] = "int"
			}
		}
		l.Bits = append(l.Bits, bits)
		if len(f) != 2 || sortNames[f[1]] == nil {
			return nil, fmt.Errorf("bad lemma parameter %q", p)
		}
		l.Vars = append(l.Vars, f[0])
		l.Sorts = append(l.Sorts, sortNames[f[1]])
	}
	return l, nil
}

// spec name(a, b) = expr      or typed: opaque spec name(a int, b bytes) bytes [len expr] = expr
func (e *Engine) parseSpec(s string, typed, rec bool) error {
	i := strings.IndexByte(s, '(')
	if i < 0 {
		return fmt.Errorf("bad spec")
	}
	name := strings.TrimSpace(s[:i])
	d, j := 0, i
	for ; j < len(s); j++ {
		if s[j] == '(' {
			d++
		}
		if s[j] == ')' {
			d--
			if d == 0 {
				break
			}
		}
	}
	head := s[i+1 : j]
	tail := strings.TrimSpace(s[j+1:])
	var bodyS, retS string
	if k := topEq(tail); k >= 0 {
		retS, bodyS = strings.TrimSpace(tail[:k]), strings.TrimSpace(tail[k+1:])
	} else {
		retS = tail
	}
	if !typed {
		m := &Macro{Name: name, Text: bodyS}
		for _, p := range splitTop(head) {
			m.Params = append(m.Params, strings.Fields(p)[0])
		}
		b, err := parseExpr(bodyS)
		if err != nil {
			return fmt.Errorf("%v in %q", err, bodyS)
		}
		m.Body = b
		if e.macros[name] != nil {
			return fmt.Errorf("duplicate spec %s", name)
		}
		e.macros[name] = m
		return nil
	}
	fd := &FuncDef{Name: name, Rec: rec, Fuel: 2}
	env := &specEnv{ex: &Exec{eng: e, sess: &Session{dead: true, cache: map[string]bool{}}}, vars: map[string]SV{}}
	for _, p := range splitTop(head) {
		f := strings.Fields(p)
		if len(f) != 2 || sortNames[f[1]] == nil {
			return fmt.Errorf("bad spec parameter %q", p)
		}
		srt := sortNames[f[1]]
		v := Var("p:"+name+":"+f[0], srt)
		fd.Params = append(fd.Params, srt)
		fd.PNames = append(fd.PNames, f[0])
		fd.pvars = append(fd.pvars, v)
		env.vars[f[0]] = SV{V: v}
	}
	rf := strings.Fields(retS)
	if len(rf) == 0 || sortNames[rf[0]] == nil {
		return fmt.Errorf("bad spec result in %q", s)
	}
	fd.Ret = sortNames[rf[0]]
	// result annotations: len=<expr>  lo=<n>  hi=<n>
	ann := strings.TrimSpace(strings.TrimPrefix(retS, rf[0]))
	if strings.HasPrefix(ann, "[") {
		ann = strings.Trim(ann, "[]")
		for _, a := range splitTop(ann) {
			kv := strings.SplitN(a, ":", 2)
			if len(kv) != 2 {
				return fmt.Errorf("bad annotation %q", a)
			}
			x, err := parseExpr(kv[1])
			if err != nil {
				return err
			}
			switch strings.TrimSpace(kv[0]) {
			case "len":
				t := env.term(x)
				pv := fd.pvars
				fd.Len = func(args []*Term) *Term {
					m := map[*Term]*Term{}
					for i, v := range pv {
						m[v] = args[i]
					}
					return substVars(t, m, nil)
				}
			case "lo":
				fd.Lo = env.term(x).K
			case "hi":
				fd.Hi = env.term(x).K
			}
		}
	}
	if defOf(name) != nil {
		return fmt.Errorf("duplicate spec %s", name)
	}
	addDef(fd)
	if bodyS != "" {
		b, err := parseExpr(bodyS)
		if err != nil {
			return fmt.Errorf("%v in %q", err, bodyS)
		}
		t := env.term(b)
		if t.Sort != fd.Ret {
			return fmt.Errorf("spec %s: body has sort %s", name, t.Sort.Name)
		}
		fd.Body = t
	}
	return nil
}

// ---- evaluation

type SV struct {
	V Val
	T types.Type
}

type specEnv struct {
	ex     *Exec
	st     *State
	old    *State
	vars   map[string]SV
	names  func(string) (SV, bool) // program variables (loop invariants)
	fn     *ssa.Function
	depth  int
	atCall bool // assuming a callee's postcondition
}

type specErr struct{ msg string }

func (env *specEnv) bad(e ast.Expr, f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf(f, a...) + " in " + exprString(e)})
}

func exprString(e ast.Expr) string {
	if e == nil {
		return "?"
	}
	return strings.ReplaceAll(types.ExprString(e), " / ", "/")
}

func (env *specEnv) with(n string, v SV) *specEnv {
	c := *env
	c.vars = make(map[string]SV, len(env.vars)+1)
	for k, x := range env.vars {
		c.vars[k] = x
	}
	c.vars[n] = v
	return &c
}

func (env *specEnv) term(e ast.Expr) *Term {
	v := env.eval(e)
	t := env.toTerm(v)
	if t == nil {
		env.bad(e, "no term for %T", v.V)
	}
	return t
}
func (env *specEnv) toTerm(v SV) *Term {
	switch x := v.V.(type) {
	case *Term:
		return x
	case *SliceV:
		return env.ex.contentRaw(env.st, x)
	case *PtrV:
		if x.Ref != nil {
			return x.Ref
		}
	case *IfaceV:
		return env.ex.ifaceHandle(env.st, x)
	case *FuncV:
		return env.ex.funcHandle(x)
	}
	return nil
}

func (ex *Exec) contentRaw(st *State, s *SliceV) *Term {
	if s.Obj > 0 {
		o := st.objs[s.Obj]
		if o == nil {
			ex.unsup("dangling slice object")
		}
		return SubSeq(o.C, s.Off, Add(s.Off, s.Len), ex.decider(st))
	}
	if s.Off == Zero && s.Len == Len(s.C) {
		return s.C
	}
	return SubSeq(s.C, s.Off, Add(s.Off, s.Len), ex.decider(st))
}

func (env *specEnv) decider() Decider {
	if env.st == nil || env.ex.sess == nil || env.ex.sess.dead {
		return nil
	}
	return env.ex.decider(env.st)
}

func (env *specEnv) lookup(n string) (SV, bool) {
	if v, ok := env.vars[n]; ok {
		return v, true
	}
	if env.names != nil {
		if v, ok := env.names(n); ok {
			return v, true
		}
	}
	return SV{}, false
}

var untypedInt = types.Typ[types.UntypedInt]

func (env *specEnv) eval(e ast.Expr) SV {
	env.depth++
	defer func() { env.depth-- }()
	if env.depth > 400 {
		env.bad(e, "spec recursion")
	}
	ex := env.ex
	switch x := e.(type) {
	case *ast.ParenExpr:
		return env.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT, token.CHAR:
			c := constant.MakeFromLiteral(x.Value, x.Kind, 0)
			b, _ := new(big.Int).SetString(constant.ToInt(c).ExactString(), 10)
			return SV{V: IntB(b)}
		case token.STRING:
			c := constant.MakeFromLiteral(x.Value, x.Kind, 0)
			return SV{V: BytesLit([]byte(constant.StringVal(c)))}
		}
	case *ast.Ident:
		switch x.Name {
		case "true":
			return SV{V: True}
		case "false":
			return SV{V: False}
		case "nil":
			return SV{V: nil}
		}
		if v, ok := env.lookup(x.Name); ok {
			return v
		}
		if m := ex.eng.macros[x.Name]; m != nil && len(m.Params) == 0 {
			return env.macro(m, nil)
		}
		if env.fn != nil {
			if v, ok := env.pkgName(env.fn.Pkg, x.Name); ok {
				return v
			}
		}
		env.bad(e, "unknown name %s", x.Name)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isv := env.lookup(id.Name); !isv {
				if p := ex.eng.pkgNamed(id.Name); p != nil {
					if v, ok := env.pkgName(p, x.Sel.Name); ok {
						return v
					}
				}
			}
		}
		return env.field(env.eval(x.X), x.Sel.Name, e)
	case *ast.StarExpr:
		v := env.eval(x.X)
		if p, ok := v.V.(*PtrV); ok {
			return SV{V: ex.load(env.st, p), T: p.T}
		}
	case *ast.IndexExpr:
		return env.index(env.eval(x.X), env.term(x.Index), e)
	case *ast.SliceExpr:
		s := env.term(x.X)
		lo, hi := Zero, Len(s)
		if x.Low != nil {
			lo = env.term(x.Low)
		}
		if x.High != nil {
			hi = env.term(x.High)
		}
		return SV{V: SubSeq(s, lo, hi, env.decider())}
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return SV{V: Not(env.term(x.X))}
		case token.SUB:
			return SV{V: Neg(env.term(x.X))}
		case token.AND:
			return env.eval(x.X)
		}
	case *ast.BinaryExpr:
		return env.binary(x)
	case *ast.CallExpr:
		return env.call(x)
	}
	env.bad(e, "unsupported expression %T", e)
	return SV{}
}

func (e *Engine) pkgNamed(n string) *ssa.Package {
	for k, p := range e.pkgs {
		if p.Pkg.Name() == n || k == n {
			return p
		}
	}
	return nil
}

func (env *specEnv) pkgName(p *ssa.Package, n string) (SV, bool) {
	if p == nil {
		return SV{}, false
	}
	switch m := p.Members[n].(type) {
	case *ssa.NamedConst:
		return SV{V: env.ex.constVal(m.Value), T: m.Type()}, true
	case *ssa.Global:
		return SV{V: env.ex.globalVal(env.st, m), T: m.Type().(*types.Pointer).Elem()}, true
	}
	return SV{}, false
}

func (env *specEnv) field(v SV, name string, e ast.Expr) SV {
	switch p := v.V.(type) {
	case *PtrV:
		if isBigInt(p.T) && name == "v" {
			sv := env.ex.loadHeap(env.st, p.Ref, "big", p.T).(*StructV)
			return SV{V: sv.F[0]}
		}
		u, ok := under(p.T).(*types.Struct)
		if !ok {
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Name() == name {
				if p.Ref == nil {
					fa := env.ex.fieldAddr(env.st, p, i).(*PtrV)
					return SV{V: env.ex.load(env.st, fa), T: f.Type()}
				}
				return SV{V: env.ex.loadHeap(env.st, p.Ref, fieldKey(p.Key, f, i), f.Type()), T: f.Type()}
			}
		}
		// promoted through an embedded field
		for i := 0; i < u.NumFields(); i++ {
			if f := u.Field(i); f.Embedded() {
				in := env.field(v, f.Name(), e)
				return env.field(in, name, e)
			}
		}
	case *StructV:
		u := under(p.T).(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return SV{V: p.F[i], T: u.Field(i).Type()}
			}
		}
	case *IfaceV:
		if p.Dyn == nil && p.H != nil {
			if d, ok := env.ex.eng.regIface(p.H); ok {
				p = d
			}
		}
		if p.Dyn != nil {
			return env.field(SV{V: p.V, T: p.Dyn}, name, e)
		}
	}
	env.bad(e, "no field %s in %T", name, v.V)
	return SV{}
}

func (env *specEnv) index(v SV, i *Term, e ast.Expr) SV {
	switch s := v.V.(type) {
	case *SliceV:
		c := env.ex.contentRaw(env.st, s)
		el := Get(c, i, env.decider())
		st := env.st
		if i.maxBV == 0 && hasSkolem(i) {
			st = env.st.clone()
		}
		return SV{V: env.ex.fromElem(st, el, s.Elem), T: s.Elem}
	case *Term:
		if s.Sort.Seq {
			el := Get(s, i, env.decider())
			if v.T != nil {
				if a, ok := under(v.T).(*types.Array); ok {
					return SV{V: env.ex.fromElem(env.st, el, a.Elem()), T: a.Elem()}
				}
			}
			return SV{V: el}
		}
		if s.Sort.Arr {
			return SV{V: Sel(s, i, env.decider())}
		}
	}
	env.bad(e, "cannot index %T", v.V)
	return SV{}
}

func hasSkolem(t *Term) bool {
	return occurs(t, func(x *Term) bool { return x.Op == OVar && strings.HasPrefix(x.Name, "bv_") })
}

func isNilExpr(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "nil"
}

func (env *specEnv) isNil(v SV, e ast.Expr) *Term {
	switch x := v.V.(type) {
	case *SliceV:
		return x.Nil
	case *PtrV:
		if x.Ref == nil {
			return False
		}
		return Eq(x.Ref, Zero)
	case *IfaceV:
		if x.H == nil {
			return False
		}
		return Eq(x.H, Zero)
	case *FuncV:
		return Eq(env.ex.funcHandle(x), Zero)
	case *MapV:
		return BoolT(x.Obj == 0 && x.Keys == nil)
	}
	env.bad(e, "nil comparison of %T", v.V)
	return nil
}

func (env *specEnv) binary(x *ast.BinaryExpr) SV {
	switch x.Op {
	case token.LAND:
		a := env.term(x.X)
		if a == False {
			return SV{V: False}
		}
		return SV{V: And(a, env.term(x.Y))}
	case token.LOR:
		a := env.term(x.X)
		if a == True {
			return SV{V: True}
		}
		return SV{V: Or(a, env.term(x.Y))}
	case token.EQL, token.NEQ:
		var r *Term
		if isNilExpr(x.Y) {
			r = env.isNil(env.eval(x.X), x.X)
		} else if isNilExpr(x.X) {
			r = env.isNil(env.eval(x.Y), x.Y)
		} else {
			a, b := env.eval(x.X), env.eval(x.Y)
			if sa, ok := a.V.(*StructV); ok {
				if sb, ok := b.V.(*StructV); ok {
					r = env.ex.eqVal(env.st, sa, sb, sa.T)
				}
			}
			if r == nil {
				ta, tb := env.toTerm(a), env.toTerm(b)
				if ta == nil || tb == nil {
					env.bad(x, "cannot compare %T and %T", a.V, b.V)
				}
				if ta.Sort != tb.Sort {
					// empty literals adapt
					if isEmpty(ta) {
						ta = Empty(tb.Sort)
					} else if isEmpty(tb) {
						tb = Empty(ta.Sort)
					} else {
						env.bad(x, "sorts %s and %s differ", ta.Sort.Name, tb.Sort.Name)
					}
				}
				r = Eq(ta, tb)
			}
		}
		if x.Op == token.NEQ {
			r = Not(r)
		}
		return SV{V: r}
	}
	a, b := env.term(x.X), env.term(x.Y)
	if a.Sort.Seq && x.Op == token.ADD {
		return SV{V: CatS(a.Sort, a, b)}
	}
	if a.Sort != SInt || b.Sort != SInt {
		env.bad(x, "integer operands expected")
	}
	switch x.Op {
	case token.ADD:
		return SV{V: Add(a, b)}
	case token.SUB:
		return SV{V: Sub(a, b)}
	case token.MUL:
		return SV{V: Mul(a, b)}
	case token.QUO:
		return SV{V: Div(a, b)}
	case token.REM:
		return SV{V: Mod(a, b)}
	case token.LSS:
		return SV{V: Lt(a, b)}
	case token.LEQ:
		return SV{V: Le(a, b)}
	case token.GTR:
		return SV{V: Gt(a, b)}
	case token.GEQ:
		return SV{V: Ge(a, b)}
	case token.SHL:
		return SV{V: Mul(a, App("pow2", SInt, b))}
	case token.SHR:
		return SV{V: Div(a, App("pow2", SInt, b))}
	case token.AND, token.OR, token.XOR:
		if a.isConst() || b.isConst() || true {
			return SV{V: env.ex.bitop(env.scratch(), x.Op, a, b, types.Typ[types.Uint64])}
		}
	}
	env.bad(x, "operator %s", x.Op)
	return SV{}
}

func (env *specEnv) scratch() *State {
	if env.st != nil {
		return env.st
	}
	return &State{heap: map[string]*Term{}, objs: map[int]*Obj{}, alloc: Zero}
}

func (env *specEnv) macro(m *Macro, args []SV) SV {
	c := &specEnv{ex: env.ex, st: env.st, old: env.old, vars: map[string]SV{}, fn: env.fn, depth: env.depth}
	for i, p := range m.Params {
		c.vars[p] = args[i]
	}
	return c.eval(m.Body)
}

func leBytes(x *Term, n int) *Term {
	var xs []*Term
	for i := 0; i < n; i++ {
		xs = append(xs, Mod(Div(x, pow2(uint(8*i))), Int(256)))
	}
	return Lit(SeqB, xs...)
}
func beBytes(x *Term, n int) *Term {
	var xs []*Term
	for i := n - 1; i >= 0; i-- {
		xs = append(xs, Mod(Div(x, pow2(uint(8*i))), Int(256)))
	}
	return Lit(SeqB, xs...)
}
func leVal(s *Term, off *Term, n int, d Decider) *Term {
	r := Zero
	for i := 0; i < n; i++ {
		r = Add(r, Scale(Get(s, AddK(off, int64(i)), d), new(big.Int).Lsh(bigOne, uint(8*i))))
	}
	return r
}
func beVal(s *Term, off *Term, n int, d Decider) *Term {
	r := Zero
	for i := 0; i < n; i++ {
		r = Add(Scale(r, big.NewInt(256)), Get(s, AddK(off, int64(i)), d))
	}
	return r
}

func (env *specEnv) call(x *ast.CallExpr) SV {
	ex := env.ex
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		if _, isArr := x.Fun.(*ast.ArrayType); isArr && len(x.Args) == 1 {
			return SV{V: env.term(x.Args[0])}
		}
		env.bad(x, "unsupported call")
	}
	need := func(n int) {
		if len(x.Args) != n {
			env.bad(x, "%s takes %d arguments", id.Name, n)
		}
	}
	T := func(i int) *Term { return env.term(x.Args[i]) }
	quant := func() (string, *Term, *Term, *Term) {
		need(4)
		v := x.Args[0].(*ast.Ident).Name
		bv := Fresh("bv_"+v, SInt)
		body := env.with(v, SV{V: bv}).term(x.Args[3])
		return v, T(1), T(2), abstract(body, bv)
	}
	switch id.Name {
	case "old":
		need(1)
		if env.old == nil {
			env.bad(x, "old() not available here")
		}
		c := *env
		c.st = env.old
		if names := env.names; names != nil && env.fn == ex.fn {
			// a parameter named under old is its value at entry
			c.names = func(n string) (SV, bool) {
				if v, ok := ex.params[n]; ok {
					return SV{V: v, T: ex.paramType(n)}, true
				}
				return names(n)
			}
		}
		v := c.eval(x.Args[0])
		if s, ok := v.V.(*SliceV); ok {
			// freeze the content
			ct := ex.contentRaw(env.old, s)
			return SV{V: pureSlice(ct, s.Nil, s.Elem), T: v.T}
		}
		return v
	case "len":
		need(1)
		v := env.eval(x.Args[0])
		if s, ok := v.V.(*SliceV); ok {
			return SV{V: s.Len}
		}
		return SV{V: Len(env.toTerm(v))}
	case "cap":
		v := env.eval(x.Args[0])
		if s, ok := v.V.(*SliceV); ok && s.Cap != nil {
			return SV{V: s.Cap}
		}
		env.bad(x, "unknown capacity")
	case "cat":
		var ts []*Term
		for i := range x.Args {
			ts = append(ts, T(i))
		}
		s := SeqB
		for _, t := range ts {
			if !isEmpty(t) {
				s = t.Sort
			}
		}
		for i, t := range ts {
			if isEmpty(t) {
				ts[i] = Empty(s)
			}
		}
		return SV{V: CatS(s, ts...)}
	case "bs":
		var ts []*Term
		for i := range x.Args {
			ts = append(ts, T(i))
		}
		return SV{V: Lit(SeqB, ts...)}
	case "seqof": // sequence of byte strings
		var ts []*Term
		for i := range x.Args {
			ts = append(ts, T(i))
		}
		return SV{V: Lit(SeqS, ts...)}
	case "ints":
		var ts []*Term
		for i := range x.Args {
			ts = append(ts, T(i))
		}
		return SV{V: Lit(SeqI, ts...)}
	case "le1", "le2", "le3", "le4", "le5", "le6", "le7", "le8":
		need(1)
		return SV{V: leBytes(T(0), int(id.Name[2]-'0'))}
	case "be1", "be2", "be3", "be4", "be5", "be6", "be7", "be8":
		need(1)
		return SV{V: beBytes(T(0), int(id.Name[2]-'0'))}
	case "be32":
		need(1)
		return SV{V: beBytes(T(0), 32)}
	case "leval": // leval(s, off, n)
		n, ok := T(2).Int64()
		if !ok {
			env.bad(x, "leval needs a constant length")
		}
		return SV{V: leVal(T(0), T(1), int(n), env.decider())}
	case "beval":
		if len(x.Args) == 1 {
			return SV{V: App("beval", SInt, T(0))}
		}
		n, _ := T(2).Int64()
		return SV{V: beVal(T(0), T(1), int(n), env.decider())}
	case "u8", "u16", "u32", "u64":
		need(1)
		bits := map[string]uint{"u8": 8, "u16": 16, "u32": 32, "u64": 64}[id.Name]
		return SV{V: Mod(T(0), pow2(bits))}
	case "i8", "i16", "i32", "i64":
		bits := map[string]uint{"i8": 8, "i16": 16, "i32": 32, "i64": 64}[id.Name]
		h := pow2(bits - 1)
		return SV{V: Sub(Mod(Add(T(0), h), pow2(bits)), h)}
	case "int", "uint64", "int64", "uint32", "byte", "uint8", "string", "val":
		need(1)
		if id.Name == "val" {
			return env.field(env.eval(x.Args[0]), "v", x)
		}
		return SV{V: T(0)}
	case "ite":
		need(3)
		c := T(0)
		if c == True {
			return env.eval(x.Args[1])
		}
		if c == False {
			return env.eval(x.Args[2])
		}
		a, b := T(1), T(2)
		if a.Sort != b.Sort {
			if isEmpty(a) {
				a = Empty(b.Sort)
			} else if isEmpty(b) {
				b = Empty(a.Sort)
			}
		}
		return SV{V: Ite(c, a, b)}
	case "implies":
		need(2)
		a := T(0)
		if a == False {
			return SV{V: True}
		}
		return SV{V: Implies(a, T(1))}
	case "iff":
		need(2)
		return SV{V: Eq(T(0), T(1))}
	case "forall":
		_, lo, hi, b := quant()
		return SV{V: Forall(lo, hi, b)}
	case "exists":
		_, lo, hi, b := quant()
		return SV{V: Exists(lo, hi, b)}
	case "sum":
		_, lo, hi, b := quant()
		return SV{V: Sum(lo, hi, b)}
	case "bigcat":
		_, lo, hi, b := quant()
		return SV{V: Bigcat(lo, hi, b)}
	case "tab":
		_, lo, hi, b := quant()
		s := SeqB
		if b.Sort == SeqB {
			s = SeqS
		}
		return SV{V: Tab(lo, hi, b, s)}
	case "tabs":
		_, lo, hi, b := quant()
		return SV{V: Tab(lo, hi, b, SeqS)}
	case "mapget", "maphas":
		need(2)
		o, ok := env.eval(x.Args[0]).V.(OpaqueV)
		if !ok || o.H == nil {
			env.bad(x, "not a map known by its identity")
		}
		v, has := ex.mapGet(o.H, T(1), nil)
		if id.Name == "maphas" {
			return SV{V: has}
		}
		return SV{V: v}
	case "mapid":
		o, ok := env.eval(x.Args[0]).V.(OpaqueV)
		if !ok || o.H == nil {
			env.bad(x, "not a map known by its identity")
		}
		return SV{V: o.H}
	case "tabi":
		_, lo, hi, b := quant()
		return SV{V: Tab(lo, hi, b, SeqI)}
	case "rep":
		need(2)
		return SV{V: Rep(T(0), T(1), SeqB)}
	case "upd":
		need(3)
		return SV{V: Upd(T(0), T(1), T(2), env.decider())}
	case "fnhandle": // the function value of a package-level function
		if l, ok := x.Args[0].(*ast.BasicLit); ok {
			n := strings.Trim(l.Value, "\"`")
			if i := strings.LastIndexByte(n, '.'); i > 0 {
				for _, pk := range ex.eng.prog.AllPackages() {
					if pk.Pkg.Path() == n[:i] {
						if f := pk.Func(n[i+1:]); f != nil {
							return SV{V: Int(ex.eng.funcID(f))}
						}
					}
				}
			}
		}
		env.bad(x, "fnhandle of an unknown function")
	case "oscount": // draws made so far from the system's random source
		return SV{V: ex.sel(env.st, "rand.$n", types.Typ[types.Int], SInt, Zero)}
	case "isnil":
		need(1)
		return SV{V: env.isNil(env.eval(x.Args[0]), x)}
	case "abs":
		return SV{V: absT(T(0))}
	case "min":
		a, b := T(0), T(1)
		return SV{V: Ite(Le(a, b), a, b)}
	case "max":
		a, b := T(0), T(1)
		return SV{V: Ite(Le(a, b), b, a)}
	case "fresh":
		need(1)
		if id, ok := x.Args[0].(*ast.Ident); ok && env.atCall && strings.HasPrefix(id.Name, "result") {
			return SV{V: True} // made fresh at the call
		}
		v := env.eval(x.Args[0])
		switch y := v.V.(type) {
		case *PtrV:
			if y.Ref != nil && env.old != nil {
				if env.atCall { // whatever is allocated lies below the next reference
					return SV{V: And(Ge(y.Ref, env.old.alloc), Lt(y.Ref, env.st.alloc))}
				}
				return SV{V: Ge(y.Ref, env.old.alloc)}
			}
		case *SliceV:
			if y.Nil == True {
				return SV{V: True}
			}
			if y.Obj > 0 {
				o := env.st.objs[y.Obj]
				return SV{V: BoolT(o != nil && o.Owned && o.Note == "" && (env.old == nil || env.old.objs[y.Obj] == nil))}
			}
			if isEmpty(y.C) || y.Len == Zero {
				return SV{V: True}
			}
			return SV{V: False}
		}
		return SV{V: True}
	case "dyn": // dyn(x, pkg.Type): the dynamic type of an interface
		v := env.eval(x.Args[0])
		iv := v.V.(*IfaceV)
		name := exprString(x.Args[1])
		if iv.Dyn == nil && iv.H != nil {
			if d, ok := ex.eng.regIface(iv.H); ok {
				iv = d
			}
		}
		if iv.Dyn != nil {
			return SV{V: BoolT(strings.TrimPrefix(typeKey(iv.Dyn), "*") == strings.TrimPrefix(name, "*"))}
		}
		h := ex.ifaceHandle(env.st, iv)
		return SV{V: And(Ne(h, Zero), Eq(App("dyntype", SInt, h), Int(ex.eng.typeIDName(name))))}
	case "as": // as(x, pkg.T): the pointer to T an interface holds
		iv := env.eval(x.Args[0]).V.(*IfaceV)
		name := strings.TrimPrefix(exprString(x.Args[1]), "*")
		if iv.Dyn == nil && iv.H != nil {
			if d, ok := ex.eng.regIface(iv.H); ok {
				iv = d
			}
		}
		if iv.Dyn != nil {
			if strings.TrimPrefix(typeKey(iv.Dyn), "*") != name {
				panic(specErr{"as: the interface holds " + typeKey(iv.Dyn)})
			}
			return SV{V: iv.V, T: iv.Dyn}
		}
		nt := ex.eng.namedType(name)
		if nt == nil {
			panic(specErr{"as: unknown type " + name})
		}
		return SV{V: &PtrV{Ref: App("ifaceptr", SInt, ex.ifaceHandle(env.st, iv)), Key: ptrKey(nt), T: nt}, T: types.NewPointer(nt)}
	case "let": // let(x, value, body)
		need(3)
		n := x.Args[0].(*ast.Ident).Name
		return env.with(n, env.eval(x.Args[1])).eval(x.Args[2])
	case "callfn": // callfn(f, ret, args...): the value an opaque function returns
		v := env.eval(x.Args[0])
		f := v.V.(*FuncV)
		var ts []*Term
		ts = append(ts, ex.funcHandle(f))
		for i := 2; i < len(x.Args); i++ {
			ts = append(ts, T(i))
		}
		kind, _ := x.Args[1].(*ast.Ident)
		switch kind.Name {
		case "bytes":
			return SV{V: App("fncall_b0", SeqB, ts...)}
		case "err":
			return SV{V: App("fncall_e1", SInt, ts...)}
		case "err0":
			return SV{V: App("fncall_e0", SInt, ts...)}
		case "bool":
			return SV{V: App("fncall_p0", SBool, ts...)}
		}
	}
	if m := ex.eng.macros[id.Name]; m != nil {
		need(len(m.Params))
		var args []SV
		for _, a := range x.Args {
			args = append(args, env.eval(a))
		}
		return env.macro(m, args)
	}
	if d := defOf(id.Name); d != nil {
		need(len(d.Params))
		var ts []*Term
		for i := range x.Args {
			t := T(i)
			if t.Sort != d.Params[i] {
				if isEmpty(t) {
					t = Empty(d.Params[i])
				} else {
					env.bad(x, "argument %d of %s has sort %s", i, id.Name, t.Sort.Name)
				}
			}
			ts = append(ts, t)
		}
		return SV{V: App(id.Name, d.Ret, ts...)}
	}
	env.bad(x, "unknown function %s", id.Name)
	return SV{}
}

// lemmaInst evaluates "name(args)": requires ==> ensures of a lemma, at these arguments.
// limit: only lemmas declared before it (no circular proofs).
func (env *specEnv) lemmaInst(c Clause, limit int) *Term {
	e := env.ex.eng
	call, ok := c.Expr.(*ast.CallExpr)
	if !ok {
		env.bad(c.Expr, "not a lemma instance")
	}
	id, _ := call.Fun.(*ast.Ident)
	for i, l := range e.lemmas[:limit] {
		if id != nil && l.Name == id.Name {
			if len(call.Args) != len(l.Vars) {
				env.bad(c.Expr, "lemma %s takes %d arguments", l.Name, len(l.Vars))
			}
			var vs []*Term
			for k, a := range call.Args {
				t := env.term(a)
				if t.Sort != l.Sorts[k] {
					if isEmpty(t) {
						t = Empty(l.Sorts[k])
					} else {
						env.bad(c.Expr, "argument %d of lemma %s has sort %s", k, l.Name, t.Sort.Name)
					}
				}
				vs = append(vs, t)
			}
			e.noteLemma(i)
			le := e.lemmaEnv(l, func(i int) *Term { return vs[i] })
			req := l.bounds(func(i int) *Term { return vs[i] })
			for _, r := range l.Req {
				req = append(req, le.term(r.Expr))
			}
			return Implies(And(req...), le.term(l.Concl.Expr))
		}
	}
	env.bad(c.Expr, "unknown or later lemma")
	return nil
}

func (e *Engine) noteLemma(i int) {
	e.mu.Lock()
	if e.usedLemma == nil {
		e.usedLemma = map[int]bool{}
	}
	e.usedLemma[i] = true
	e.mu.Unlock()
}

func (e *Engine) typeIDName(k string) int64 {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.tids[k] == 0 {
		e.tids[k] = int64(len(e.tids) + 1)
	}
	return e.tids[k]
}

// topEq finds the "=" that starts the body of a spec definition.
func topEq(s string) int {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case '=':
			if d == 0 {
				return i
			}
		}
	}
	return -1
}

// namedType finds "pkg.T" among the packages under analysis.
func (e *Engine) namedType(name string) types.Type {
	i := strings.LastIndexByte(name, '.')
	if i < 0 {
		return nil
	}
	for _, p := range e.prog.AllPackages() {
		if relPkg(p.Pkg) == name[:i] {
			if t := p.Type(name[i+1:]); t != nil {
				return t.Type()
			}
		}
	}
	return nil
}
