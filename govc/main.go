package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Report struct {
	Property  string        `json:"property"`
	Functions []*FuncReport `json:"functions"`
	VCs       []*VC         `json:"vcs"`
	Queries   int64         `json:"queries"`
	SolverSec float64       `json:"solver_sec"`
	LoadSec   float64       `json:"load_sec"`
	TotalSec  float64       `json:"total_sec"`
	LoadErr   string        `json:"load_error,omitempty"`
	Axioms    []string      `json:"axioms"`
	Externs   []string      `json:"externs"`
	Versions  []string      `json:"versions"`
}

func main() {
	repo := flag.String("repo", "/repo", "source tree")
	cdir := flag.String("contracts", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "property id")
	only := flag.String("func", "", "verify only functions whose key contains this")
	out := flag.String("json", "", "write the report here")
	verbose := flag.Bool("v", false, "print every obligation")
	dump := flag.String("dump", "", "write failed queries to this directory")
	list := flag.Bool("list", false, "list contracts")
	seq := flag.Bool("seq", false, "one function at a time")
	flag.Parse()
	if d := os.Getenv("GOVC_SLOWLOG"); d != "" {
		var n int64
		slowLogger = func(q string, t time.Duration) {
			i := atomic.AddInt64(&n, 1)
			os.WriteFile(fmt.Sprintf("%s/q%03d_%.1f.smt2", d, i, t.Seconds()), []byte(q+"(check-sat)\n"), 0o644)
		}
	}
	t0 := time.Now()
	rep := &Report{Property: *prop}
	finish := func(code int) {
		rep.TotalSec = time.Since(t0).Seconds()
		rep.Queries, rep.SolverSec = stats.Queries, float64(stats.TimeNS)/1e9
		if *out != "" {
			b, _ := json.MarshalIndent(rep, "", " ")
			os.WriteFile(*out, b, 0o644)
		}
		os.Exit(code)
	}
	ld, err := Load(*repo, []string{"./..."}, deps(*cdir))
	if err != nil {
		rep.LoadErr = err.Error()
		fmt.Println("load:", err)
		finish(3)
	}
	rep.LoadSec = time.Since(t0).Seconds()
	db, err := LoadSpecs(ld, *cdir)
	if err != nil {
		rep.LoadErr = err.Error()
		fmt.Println("contracts:", err)
		finish(4)
	}
	var cons []*Contract
	for _, c := range db.order {
		if c.extern || c.invoke {
			continue
		}
		if *prop != "" {
			ok := false
			for _, p := range c.props {
				if p == *prop {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		if *only != "" && !strings.Contains(c.key, *only) {
			continue
		}
		cons = append(cons, c)
	}
	if *list {
		for _, c := range cons {
			fmt.Println(c.key, c.props)
		}
		return
	}
	reps := make([][]*FuncReport, len(cons))
	var wg sync.WaitGroup
	lim := make(chan struct{}, 8)
	done := map[string]bool{}
	for _, c := range cons {
		done[c.key] = true
		if c.lemma != nil {
			done[c.pkg+"."+c.key] = true
		}
	}
	start := 0
again:
	for i, c := range cons {
		if i < start {
			continue
		}
		wg.Add(1)
		run := func(i int, c *Contract) {
			defer wg.Done()
			lim <- struct{}{}
			defer func() { <-lim }()
			t := time.Now()
			reps[i] = verifyContract(ld, db, c)
			for _, r := range reps[i] {
				r.Sec = time.Since(t).Seconds()
			}
		}
		if *seq {
			run(i, c)
		} else {
			go run(i, c)
		}
	}
	wg.Wait()
	// a caller is checked against its callees' contracts: those are obligations of this property too
	start = len(cons)
	if *only == "" {
		for _, rs := range reps {
			for _, r := range rs {
				for _, u := range r.Used {
					u = strings.TrimPrefix(u, "contract ")
					c := db.contracts[u]
					if c == nil || c.extern || c.invoke || done[u] {
						continue
					}
					done[u] = true
					cons = append(cons, c)
				}
			}
		}
		lemmaMu.Lock()
		for _, l := range db.lemmas {
			if k := l.pkg + "." + l.key; lemmaUsed[l] && !done[k] {
				done[k] = true
				cons = append(cons, l)
			}
		}
		lemmaMu.Unlock()
		if len(cons) > start {
			reps = append(reps, make([][]*FuncReport, len(cons)-start)...)
			goto again
		}
	}
	bad := 0
	used := map[string]bool{}
	for _, rs := range reps {
		for _, r := range rs {
			rep.Functions = append(rep.Functions, r)
			rep.VCs = append(rep.VCs, r.VCs...)
			n, f := 0, 0
			for _, v := range r.VCs {
				n++
				if v.Verdict != "unsat" {
					f++
				}
			}
			st := "ok"
			if r.Err != "" || f > 0 {
				st = "FAIL"
				bad++
			}
			fmt.Printf("%-4s %s %s: %d obligations, %d open, %d exits, %.1fs %s\n", st, r.Func, r.Inst, n, f, r.Exits, r.Sec, r.Err)
			for i, v := range r.VCs {
				if v.Verdict != "unsat" || *verbose {
					fmt.Printf("      %-8s %s | %s | %s | %s\n", v.Verdict, v.Kind, v.Label, v.Pos, v.Path)
				}
				if v.Verdict != "unsat" && *dump != "" {
					os.MkdirAll(*dump, 0o755)
					os.WriteFile(fmt.Sprintf("%s/%s_%d.smt2", *dump, sanitizeFile(r.Func), i), []byte(v.Query+"(check-sat)\n"), 0o644)
				}
			}
			for _, u := range r.Used {
				used[u] = true
			}
		}
	}
	for i, a := range db.axioms {
		_ = i
		rep.Axioms = append(rep.Axioms, a.src)
	}
	for u := range used {
		rep.Externs = append(rep.Externs, u)
	}
	sort.Strings(rep.Externs)
	fmt.Printf("%d functions, %d failing, %d queries, %.1fs solver, %.1fs total\n", len(rep.Functions), bad, stats.Queries, float64(stats.TimeNS)/1e9, time.Since(t0).Seconds())
	if bad > 0 || len(rep.Functions) == 0 {
		finish(1)
	}
	finish(0)
}

func sanitizeFile(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '/' || r == '*' || r == '(' || r == ')' || r == ' ' {
			return '_'
		}
		return r
	}, s)
}
