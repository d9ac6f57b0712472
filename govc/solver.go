package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Verdict int

const (
	Unknown Verdict = iota
	Unsat
	Sat
)

func (v Verdict) String() string { return [...]string{"unknown", "unsat", "sat"}[v] }

type Result struct {
	V       Verdict
	Backend string
	Model   string
	Dur     time.Duration
	Note    string
}

type SolverStats struct {
	Queries   int64
	CacheHits int64
	TimeNS    int64
}

var (
	stats      SolverStats
	sem        = make(chan struct{}, 8)
	cacheMu    sync.Mutex
	cache      = map[[32]byte]*cacheEntry{}
	dumpDir    string
	slowLogger func(string, time.Duration)
)

type cacheEntry struct {
	once sync.Once
	r    Result
}

// runSolver runs a solver with a limit of ms of processor time, as far as its own limit of elapsed time allows: on a
// loaded machine it is asked again with more time when it got less of the processor than that.
func runSolver(ms int, cmd func(ms int) []string, script string) (string, time.Duration) {
	for n := 1; ; n *= 2 {
		t0 := time.Now()
		out, cpu := runOnce(n*ms, cmd(n*ms), script)
		limit := time.Duration(ms) * time.Millisecond
		if n >= 4 || cpu >= limit*7/10 || parseVerdict(out) != Unknown || time.Since(t0) < limit*time.Duration(n)*9/10 {
			return out, cpu
		}
	}
}

func runOnce(ms int, cmd []string, script string) (string, time.Duration) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond+3*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, cmd[0], cmd[1:]...)
	c.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	c.Run()
	var cpu time.Duration
	if c.ProcessState != nil {
		cpu = c.ProcessState.UserTime() + c.ProcessState.SystemTime()
	}
	return out.String(), cpu
}

func parseVerdict(out string) Verdict {
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "unsat":
			return Unsat
		case "sat":
			return Sat
		case "unknown", "timeout":
			return Unknown
		}
	}
	return Unknown
}

func firstErr(out string) string {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(strings.TrimSpace(l), "(error") {
			return l
		}
	}
	return ""
}

const ematchOpts = "(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n"

// level: 0 = quick feasibility (E-matching only, short), 1 = inference, 2 = obligation (portfolio)
func solve(asserts []*Term, level int) Result {
	for _, a := range asserts {
		if a == tFalse {
			return Result{V: Unsat, Backend: "simplifier"}
		}
	}
	body := BuildQuery(asserts)
	key := sha256.Sum256([]byte(fmt.Sprintf("%d|", level) + body))
	cacheMu.Lock()
	e, ok := cache[key]
	if !ok {
		e = &cacheEntry{}
		cache[key] = e
	} else {
		atomic.AddInt64(&stats.CacheHits, 1)
	}
	cacheMu.Unlock()
	e.once.Do(func() { e.r = solveBody(body, level) })
	return e.r
}

func solveBody(body string, level int) Result {
	sem <- struct{}{}
	defer func() { <-sem }()
	atomic.AddInt64(&stats.Queries, 1)
	t0 := time.Now()
	r := solveBody1(body, level)
	r.Dur = time.Since(t0)
	atomic.AddInt64(&stats.TimeNS, int64(r.Dur))
	if os.Getenv("GOVC_STATS") != "" {
		fmt.Fprintf(os.Stderr, "Q %d %s %.2f\n", level, r.V, r.Dur.Seconds())
	}
	if slowLogger != nil && r.Dur > 2*time.Second {
		slowLogger(body, r.Dur)
	}
	return r
}

// slow multiplies every solver limit (for a second attempt on a loaded machine).
var slow = func() int {
	n, _ := strconv.Atoi(os.Getenv("GOVC_SLOW"))
	if n < 1 {
		n = 1
	}
	return n
}()

func z3call(bin string, opts string, body string, ms int, model bool) (Verdict, string, time.Duration) {
	ms *= slow
	script := opts + body + "(check-sat)\n"
	if model {
		script += "(get-model)\n"
	}
	out, cpu := runSolver(ms, func(ms int) []string { return []string{bin, "-in", fmt.Sprintf("-t:%d", ms)} }, script)
	v := parseVerdict(out)
	if v != Unsat {
		if e := firstErr(out); e != "" && !strings.Contains(e, "model is not available") {
			if os.Getenv("GOVC_PANIC") != "" {
				panic("solver error: " + e + "\n" + script)
			}
			fmt.Fprintln(os.Stderr, "solver error:", e)
		}
	}
	return v, out, cpu
}

func cvc5call(body string, ms int) Verdict {
	ms *= slow
	out, _ := runSolver(ms, func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", "--arrays-exp", fmt.Sprintf("--tlimit=%d", ms)}
	}, "(set-logic ALL)\n"+body+"(check-sat)\n")
	return parseVerdict(out)
}

func solveBody1(body string, level int) Result {
	switch level {
	case 0:
		v, _, _ := z3call("z3-new", ematchOpts, body, 500, false)
		return Result{V: v, Backend: "z3-5.3.2"}
	case 3:
		v, _, _ := z3call("z3-new", ematchOpts, body, 4000, false)
		if v != Unsat {
			v, _, _ = z3call("z3-new", ematchOpts+"(set-option :smt.relevancy 0)\n", body, 8000, false)
		}
		return Result{V: v, Backend: "z3-5.3.2"}
	case 4: // as 1, with patience
		v, _, cpu := z3call("z3-new", ematchOpts, body, 8000, false)
		if v != Unsat {
			ms := 3000
			if cpu > time.Second {
				ms = 1500
			}
			v, _, _ = z3call("z3-new", ematchOpts+"(set-option :smt.relevancy 0)\n", body, ms, false)
			if v != Unsat {
				if v, _, _ = z3call("z3", ematchOpts, body, ms, false); v == Unsat {
					return Result{V: v, Backend: "z3-4.8.12"}
				}
			}
		}
		return Result{V: v, Backend: "z3-5.3.2"}
	case 1:
		v, _, cpu := z3call("z3-new", ematchOpts, body, 2500, false)
		if v != Unsat && cpu < time.Second {
			// gave up early: once more by the other release, and with every term considered for instantiation
			if o, _, _ := z3call("z3", ematchOpts, body, 500, false); o == Unsat {
				return Result{V: o, Backend: "z3-4.8.12"}
			}
			if cpu < 120*time.Millisecond {
				v, _, _ = z3call("z3-new", ematchOpts+"(set-option :smt.relevancy 0)\n", body, 500, false)
			}
		}
		return Result{V: v, Backend: "z3-5.3.2"}
	}
	v, _, _ := z3call("z3-new", ematchOpts, body, 8000, false)
	if v == Unsat {
		return Result{V: v, Backend: "z3-5.3.2"}
	}
	// the other back ends, concurrently
	type rr struct {
		v   Verdict
		b   string
		out string
	}
	ch := make(chan rr, 3)
	go func() {
		v, o, _ := z3call("z3-new", "", body, 12000, true)
		ch <- rr{v, "z3-5.3.2-mbqi", o}
	}()
	go func() {
		v, _, _ := z3call("z3", ematchOpts, body, 12000, false)
		ch <- rr{v, "z3-4.8.12", ""}
	}()
	go func() { ch <- rr{cvc5call(body, 12000), "cvc5-1.1.2", ""} }()
	res := Result{V: Unknown, Backend: "portfolio"}
	for i := 0; i < 3; i++ {
		r := <-ch
		if r.v == Unsat {
			return Result{V: Unsat, Backend: r.b}
		}
		if r.v == Sat && r.b == "z3-5.3.2-mbqi" {
			res.V = Sat
			res.Model = r.out
			res.Backend = r.b
		}
	}
	return res
}
