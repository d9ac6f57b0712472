//go:build go1.22

// Package vr runs the bounded cross-checks that accompany the proofs: the
// real code, through its public API, against an oracle written from the
// property. It also looks for a failing input when a proof no longer goes
// through.
package vr

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result struct {
	Property string   `json:"property"`
	Seed     int64    `json:"seed"`
	Cases    int64    `json:"cases"`
	Distinct int      `json:"distinct"`
	Samples  []string `json:"samples"`
	Bounds   []string `json:"bounds"`
	Failed   bool     `json:"failed"`
	Input    string   `json:"failing_input,omitempty"`
	Detail   string   `json:"detail,omitempty"`
	WallS    float64  `json:"wall_s"`
}

type R struct {
	Rng      *rand.Rand
	Thorough bool
	res      Result
	desc     func() string
	started  atomic.Int64
	seq      atomic.Int64
	seen     map[uint64]struct{}
	mu       sync.Mutex
	out      string
	trace    *os.File
	t0       time.Time
	budget   time.Duration
	hang     time.Duration
}

type failure string

// Run is the main function of a cross-check: prog OUT.json [TRACE].
func Run(id string, f func(r *R)) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := &R{Rng: rand.New(rand.NewSource(seed*1000003 + 17)), seen: map[uint64]struct{}{}, t0: time.Now(), budget: 40 * time.Second, hang: 30 * time.Second}
	r.Thorough = os.Getenv("VERIF_TIER") == "thorough"
	if r.Thorough {
		r.budget = 240 * time.Second
	}
	r.res.Property, r.res.Seed = id, seed
	r.res.Samples, r.res.Bounds = []string{}, []string{}
	r.out = os.Args[1]
	if len(os.Args) > 2 {
		r.trace, _ = os.Create(os.Args[2])
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			s := r.started.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > r.hang {
				q := r.seq.Load()
				time.Sleep(2 * time.Second)
				if r.seq.Load() == q && r.started.Load() == s {
					r.mu.Lock()
					d := "unknown"
					if r.desc != nil {
						d = r.desc()
					}
					buf := make([]byte, 1<<16)
					buf = buf[:runtime.Stack(buf, true)]
					r.fail(d, fmt.Sprintf("the call does not return (waited %v)\n%s", r.hang, buf))
				}
			}
		}
	}()
	f(r)
	r.finish(0)
}

func (r *R) finish(code int) {
	r.res.WallS = time.Since(r.t0).Seconds()
	r.res.Distinct = len(r.seen)
	b, _ := json.MarshalIndent(r.res, "", " ")
	os.WriteFile(r.out, b, 0o644)
	os.Exit(code)
}

func (r *R) fail(input, detail string) {
	r.res.Failed = true
	r.res.Input, r.res.Detail = input, detail
	r.finish(1)
}

// Bound records what this cross-check explores.
func (r *R) Bound(format string, a ...any) {
	r.res.Bounds = append(r.res.Bounds, fmt.Sprintf(format, a...))
}

// More reports whether the time for open-ended exploration is not used up.
// Random exploration stops at share (0..1) of the budget.
func (r *R) More(share float64) bool {
	return time.Since(r.t0) < time.Duration(float64(r.budget)*share)
}

// Failf fails the running case.
func (r *R) Failf(format string, a ...any) { panic(failure(fmt.Sprintf(format, a...))) }

// Eq fails the running case unless got is deeply equal to want.
func (r *R) Eq(what string, got, want any) {
	if !reflect.DeepEqual(got, want) {
		r.Failf("%s: got %v, want %v", what, got, want)
	}
}

// True fails the running case unless ok.
func (r *R) True(ok bool, format string, a ...any) {
	if !ok {
		r.Failf(format, a...)
	}
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Note marks the running case as distinct by this key (bounded memory).
func (r *R) Note(key string) {
	if len(r.seen) < 1<<20 {
		r.seen[hash(key)] = struct{}{}
	}
}

// Case runs f as one case: a panic or a call of Failf inside is a violation with the described input.
func (r *R) Case(desc func() string, f func()) {
	r.mu.Lock()
	r.desc = desc
	r.mu.Unlock()
	if r.trace != nil {
		d := desc()
		r.trace.Truncate(0)
		r.trace.WriteAt([]byte(d), 0)
	}
	r.res.Cases++
	n := r.res.Cases
	if n&(n-1) == 0 && len(r.res.Samples) < 16 {
		defer func() { r.res.Samples = append(r.res.Samples, desc()) }()
	}
	r.seq.Add(1)
	r.started.Store(time.Now().UnixNano())
	defer func() {
		p := recover()
		r.started.Store(0)
		if p == nil {
			return
		}
		if fl, ok := p.(failure); ok {
			r.fail(desc(), string(fl))
		}
		r.fail(desc(), fmt.Sprintf("panic: %v\n%s", p, debug.Stack()))
	}()
	f()
}

// Op is one operation of a history: Small are the arguments tried
// exhaustively, Wide draws one for random histories.
type Op struct {
	Name  string
	Small []int
	Wide  func(rng *rand.Rand) int
}

type Step struct {
	Op  string
	Arg int
}

func fmtHist(h []Step) string {
	var b strings.Builder
	for i, s := range h {
		if i > 0 {
			b.WriteString("; ")
		}
		fmt.Fprintf(&b, "%s(%d)", s.Op, s.Arg)
	}
	return b.String()
}

// Histories runs every history of length depth over the small arguments and
// then random longer ones, each from a new instance made by mk; step compares
// the real object with the oracle after every operation.
func (r *R) Histories(what string, mk func() func(s Step), ops []Op, depth int, share float64, maxLen int) {
	var al []Step
	for _, o := range ops {
		if len(o.Small) == 0 {
			al = append(al, Step{o.Name, 0})
		}
		for _, a := range o.Small {
			al = append(al, Step{o.Name, a})
		}
	}
	if r.Thorough {
		depth++
	}
	hist := make([]Step, depth)
	idx := make([]int, depth)
	n := 0
	for {
		for i := range hist {
			hist[i] = al[idx[i]]
		}
		r.run(what, mk, hist)
		n++
		i := depth - 1
		for i >= 0 {
			idx[i]++
			if idx[i] < len(al) {
				break
			}
			idx[i] = 0
			i--
		}
		if i < 0 {
			break
		}
		if n%1024 == 0 && !r.More(share) {
			break
		}
	}
	r.Bound("%s: %d histories of length %d over %d operations", what, n, depth, len(al))
	m := 0
	limit := 4000
	if r.Thorough {
		limit = 200000
	}
	for m < limit && r.More(share) {
		l := 1 + r.Rng.Intn(maxLen)
		h := make([]Step, l)
		// each random history favours some operations, so that objects grow and drain
		w := make([]int, len(ops))
		tot := 0
		for i := range w {
			w[i] = 1 + r.Rng.Intn(6)
			tot += w[i]
		}
		for i := range h {
			x := r.Rng.Intn(tot)
			j := 0
			for x >= w[j] {
				x -= w[j]
				j++
			}
			o := ops[j]
			a := 0
			if o.Wide != nil {
				a = o.Wide(r.Rng)
			} else if len(o.Small) > 0 {
				a = o.Small[r.Rng.Intn(len(o.Small))]
			}
			h[i] = Step{o.Name, a}
		}
		r.run(what, mk, h)
		m++
	}
	r.Bound("%s: %d random histories of up to %d operations", what, m, maxLen)
}

func (r *R) run(what string, mk func() func(s Step), h []Step) {
	done := 0
	r.Case(func() string { return what + ": " + fmtHist(h[:min(done+1, len(h))]) }, func() {
		step := mk()
		for i, s := range h {
			done = i
			step(s)
		}
		r.Note(what + fmtHist(h))
	})
}

// Range returns a generator of ints in [lo,hi] with rare extreme values.
func Range(lo, hi int, extremes ...int) func(rng *rand.Rand) int {
	return func(rng *rand.Rand) int {
		if len(extremes) > 0 && rng.Intn(10) == 0 {
			return extremes[rng.Intn(len(extremes))]
		}
		return lo + rng.Intn(hi-lo+1)
	}
}

// Tok makes the k-th distinct element.
func Tok(k int) string { return "e" + strconv.Itoa(k) }

// Sizes runs f for sizes around every power of two up to a bound.
func (r *R) Sizes(what string, f func(n int)) {
	top := 17
	if r.Thorough {
		top = 20
	}
	k := 0
	for e := 0; e <= top; e++ {
		for d := -1; d <= 1; d++ {
			n := 1<<e + d
			r.Case(func() string { return fmt.Sprintf("%s: size %d", what, n) }, func() { f(n); r.Note(fmt.Sprint(what, n)) })
			k++
		}
	}
	r.Bound("%s: %d sizes up to %d", what, k, 1<<top+1)
}
