package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type outObl struct {
	Fn, Kind, Name, Pos, Status, By, Out, Script string
	Secs                                         float64
}
type outFn struct {
	ID, File, Skipped, Trusted, Err string
	Line                            int
	Props                           []string
	Paths                           int
	Secs, SolveS                    float64
	Obls                            []outObl
	Assumed, Used, Inlined          []string
	Assume                          []string
}
type outAll struct {
	Functions []outFn
	InitNotes []string
	LoadS     float64
	TotalS    float64
	Solvers   []string
}

func main() {
	repo := flag.String("repo", "/repo", "")
	dir := flag.String("contracts", "/verif/contracts", "")
	prop := flag.String("prop", "", "property id")
	fn := flag.String("func", "", "only this contract (substring)")
	out := flag.String("out", "", "JSON result")
	to := flag.Int("timeout", 10, "seconds per obligation")
	par := flag.Int("j", 6, "functions in parallel")
	verbose := flag.Bool("v", false, "")
	list := flag.Bool("list", false, "list contracts and properties")
	flag.Parse()
	t0 := time.Now()
	initSolvers()
	if len(solvers) == 0 {
		fmt.Fprintln(os.Stderr, "no SMT solver found")
		os.Exit(2)
	}
	eng, err := NewEngine(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	var ps []*ssa.Package
	for _, p := range eng.pkgs {
		ps = append(ps, p)
	}
	tl := time.Now()
	eng.initPackages(ps)
	dbg("load %v init %v", tl.Sub(t0), time.Since(tl))
	if err := eng.loadContracts(*dir); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var res outAll
	res.LoadS = time.Since(t0).Seconds()
	res.InitNotes = eng.initNotes
	for _, s := range solvers {
		res.Solvers = append(res.Solvers, s.name)
	}
	// contracts of the property and, transitively, the contracts they rely on
	want := map[string]bool{}
	var ids []string
	for id, c := range eng.contracts {
		sel := *prop == "" && *fn == ""
		if *prop != "" {
			for _, p := range c.Props {
				if p == *prop {
					sel = true
				}
			}
		}
		if *fn != "" {
			sel = strings.Contains(id, *fn)
			if *prop != "" {
				sel = id == *fn
			}
		}
		if sel {
			want[id] = true
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	if *list {
		for _, id := range ids {
			fmt.Println(id, eng.contracts[id].Props)
		}
		return
	}
	sem := make(chan struct{}, *par)
	var mu sync.Mutex
	var wg sync.WaitGroup
	results := map[string]*FuncResult{}
	var launch func(id string)
	launch = func(id string) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			r := eng.verifyFunc(eng.contracts[id])
			eng.discharge(r, eng.contracts[id], time.Duration(*to)*time.Second)
			<-sem
			mu.Lock()
			results[id] = r
			if *fn == "" {
				for _, u := range r.Used {
					if !want[u] {
						want[u] = true
						launch(u)
					}
				}
			}
			mu.Unlock()
			if *verbose {
				report(r)
			}
		}()
	}
	mu.Lock()
	for _, id := range ids {
		launch(id)
	}
	mu.Unlock()
	wg.Wait()
	for i, l := range eng.lemmas {
		use := *prop == "" && *fn == ""
		if *prop != "" {
			for _, p := range l.Prop {
				use = use || p == *prop
			}
			if len(l.Prop) == 0 {
				use = true
			}
		}
		if *fn != "" {
			use = strings.Contains("lemma "+l.Name, *fn)
		}
		if use {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := eng.proveLemma(i, time.Duration(*to)*time.Second)
				mu.Lock()
				results[r.ID] = r
				mu.Unlock()
				if *verbose {
					report(r)
				}
			}()
		}
	}
	wg.Wait()
	// lemmas the proofs above rest on
	for again := true; again; {
		again = false
		for i := range eng.lemmas {
			eng.mu.Lock()
			u := eng.usedLemma[i]
			eng.mu.Unlock()
			id := "lemma " + eng.lemmas[i].Name
			if u && results[id] == nil {
				again = true
				results[id] = eng.proveLemma(i, time.Duration(*to)*time.Second)
				if *verbose {
					report(results[id])
				}
			}
		}
	}
	var keys []string
	for k := range results {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	failed := 0
	for _, k := range keys {
		r := results[k]
		o := outFn{ID: r.ID, Skipped: r.Skipped, Trusted: r.Trusted, Err: r.Err, Paths: r.Paths, Secs: r.Secs, SolveS: r.SolveS, Assumed: r.Assumed, Used: r.Used, Inlined: r.Inlined}
		if c := eng.contracts[k]; c != nil {
			o.File, o.Line, o.Props = c.File, c.Line, c.Props
			for _, a := range c.Assume {
				o.Assume = append(o.Assume, a.Text)
			}
		}
		for _, b := range r.Obls {
			if b.Status != "discharged" {
				failed++
			}
			ob := outObl{Fn: b.Fn, Kind: b.Kind, Name: b.Name, Pos: b.Pos, Status: b.Status, By: b.By, Secs: b.Secs, Out: b.Out}
			if b.Status == "failed" {
				ob.Script = clip(b.Script, 40000)
			}
			o.Obls = append(o.Obls, ob)
		}
		res.Functions = append(res.Functions, o)
	}
	res.TotalS = time.Since(t0).Seconds()
	if *out != "" {
		b, _ := json.MarshalIndent(res, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	if *verbose {
		for _, n := range eng.initNotes {
			fmt.Println("init note:", n)
		}
		fmt.Printf("total %.1fs (load %.1fs), %d failed obligations\n", res.TotalS, res.LoadS, failed)
	}
	if failed > 0 {
		os.Exit(1)
	}
}

var repMu sync.Mutex

func report(r *FuncResult) {
	repMu.Lock()
	defer repMu.Unlock()
	ok, bad := 0, 0
	for _, o := range r.Obls {
		if o.Status == "discharged" {
			ok++
		} else {
			bad++
		}
	}
	extra := ""
	if r.Trusted != "" {
		extra = " TRUSTED"
	}
	if r.Skipped != "" {
		extra = " SKIPPED " + r.Skipped
	}
	fmt.Printf("%-60s ok=%d bad=%d paths=%d %.1fs solver=%.1fs%s\n", r.ID, ok, bad, r.Paths, r.Secs, r.SolveS, extra)
	for _, o := range r.Obls {
		if o.Status != "discharged" {
			fmt.Printf("   FAIL %s [%s] %s %s (%s)\n", o.Kind, o.Pos, o.Name, clip(o.Goal.String(), 300), strings.SplitN(o.Out, "\n", 2)[0])
		}
	}
}
