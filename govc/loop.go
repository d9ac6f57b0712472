package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type dryStore struct {
	key  string
	base *Term
}

type cand struct {
	label string
	gen   func(st *State) *Term
}

type measure struct {
	label string
	gen   func(st *State) *Term
}

type loopMod struct {
	cells    map[int]bool
	heap     map[string]bool
	now      bool
	bases    map[string][]*Term
	unstable map[string]bool
	locks    bool // a lock with guarded state is taken
}

func (ex *Exec) loopKey(st *State, h *ssa.BasicBlock) string {
	var b strings.Builder
	for _, f := range st.frames {
		b.WriteString(funcKey(f.fn))
		b.WriteByte('/')
	}
	fmt.Fprintf(&b, "%d", h.Index)
	return b.String()
}

func (ex *Exec) valSame(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.ref == y.ref && x.off == y.off && x.len == y.len && x.cap == y.cap
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !ex.valSame(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok {
			return false
		}
		for i := range x.arrs {
			if x.arrs[i] != y.arrs[i] {
				return false
			}
		}
		return true
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok {
			return false
		}
		return ex.locEq(x.loc, y.loc) == tTrue
	case *FuncV:
		y, ok := b.(*FuncV)
		return ok && (x == y || x.term() == y.term())
	}
	return a == b
}

func freshMark() int {
	internMu.Lock()
	defer internMu.Unlock()
	return freshSeq
}

// stableTerm reports whether a term mentions no variable created after the mark.
func stableTerm(t *Term, mark int) bool {
	ok := true
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] || !ok {
			return
		}
		seen[x] = true
		if x.op == "var" {
			if i := strings.LastIndexByte(x.name, '!'); i >= 0 {
				if n, err := strconv.Atoi(x.name[i+1:]); err == nil && n > mark {
					ok = false
					return
				}
			}
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	rec(t)
	return ok
}

func (ex *Exec) loopState(st *State, mode Mode) *State {
	s := st.clone()
	s.mode = mode
	s.top().k = func(*State, []Val) {}
	return s
}

// loopMods finds what an arbitrary iteration can change.
func (ex *Exec) loopMods(st *State, h *ssa.BasicBlock, lp *loopInfo) *loopMod {
	mod := &loopMod{cells: map[int]bool{}, heap: map[string]bool{}, bases: map[string][]*Term{}, unstable: map[string]bool{}}
	savedLog := ex.dryLog
	savedCells := ex.cellSeq
	defer func() { ex.dryLog = savedLog }()
	for round := 0; round < 12; round++ {
		s := ex.loopState(st, ModeDry)
		mark := freshMark()
		ex.havocLoop(s, mod)
		c0 := s.snap()
		ex.dryLog = []dryStore{}
		changed := false
		al := &activeLoop{header: h, blocks: lp.blocks, stopAtExit: true}
		al.hook = func(e *State) {
			if e.nacq != st.nacq && len(ex.con.sections) > 0 {
				if !mod.locks {
					mod.locks = true
					changed = true
				}
			} else if e.nacq != st.nacq {
				panic(unsupported("a lock with guarded state is taken in a loop"))
			}
			for id, v := range c0.cells {
				if !mod.cells[id] && !ex.valSame(v, e.cells[id]) {
					mod.cells[id] = true
					changed = true
				}
			}
			for k, v := range e.heap {
				o := c0.heap[k]
				if o == nil {
					i := strings.LastIndex(k, "#")
					o = ex.heapInit(k, Sort(k[i+1:]))
				}
				if o != v && !mod.heap[k] {
					mod.heap[k] = true
					changed = true
				}
			}
			if e.now != c0.now && !mod.now {
				mod.now = true
				changed = true
			}
		}
		s.top().loops = append(s.top().loops, al)
		ex.runFrom(s, h)
		if !changed {
			mod.bases = map[string][]*Term{}
			mod.unstable = map[string]bool{}
			seen := map[string]bool{}
			for _, d := range ex.dryLog {
				sk := d.key + strconv.Itoa(d.base.id)
				if seen[sk] {
					continue
				}
				seen[sk] = true
				if stableTerm(d.base, mark) {
					mod.bases[d.key] = append(mod.bases[d.key], d.base)
				} else {
					mod.unstable[d.key] = true
				}
			}
			savedLog = append(savedLog, ex.dryLog...)
			break
		}
	}
	// cells created inside the loop body are not part of its state
	for id := range mod.cells {
		if id > savedCells {
			if _, live := st.cells[id]; !live {
				delete(mod.cells, id)
			}
		}
	}
	return mod
}

func (ex *Exec) runFrom(st *State, b *ssa.BasicBlock) {
	n := 0
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			n++
		} else {
			break
		}
	}
	ex.runBlock(st, b, n)
}

func (ex *Exec) havocLoop(st *State, mod *loopMod) {
	st.rng = nil
	if mod.locks {
		st.acq, st.rel = nil, nil
		st.nacq++
	}
	if mod.now {
		n := Fresh("now", SInt)
		st.assume(Le(st.now, n))
		st.now = n
	}
	var ids []int
	for id := range mod.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if st.cells[id] == nil {
			continue
		}
		ci := ex.cinfo[id]
		switch st.cells[id].(type) {
		case *PtrV:
			panic(unsupported("loop changes pointer variable %s", ci.name))
		}
		st.cells[id] = ex.freshVal(st, "v_"+ci.name, ci.typ)
	}
	for _, k := range sortedKeys(mod.heap) {
		i := strings.LastIndex(k, "#")
		s := Sort(k[i+1:])
		n := Fresh("L."+k[:i], s)
		ex.heapAxioms(n, s, st.now)
		st.heap[k] = n
	}
}

// proveAll returns the indices of goals that are not provable.
func (ex *Exec) proveAll(st *State, goals []*Term, level int) map[int]bool {
	bad := map[int]bool{}
	if st.dead {
		return bad
	}
	var open []int
	var conj []*Term
	inpc := map[*Term]bool{}
	for _, p := range st.pc {
		inpc[p] = true
	}
	for i, g := range goals {
		if g == tTrue || inpc[g] {
			continue
		}
		if g == tFalse {
			if !ex.prove(st, g, 0) {
				bad[i] = true
			}
			continue
		}
		open = append(open, i)
		conj = append(conj, g)
	}
	if len(open) == 0 {
		return bad
	}
	if len(open) > 1 && ex.prove(st, And(conj...), level) {
		return bad
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, i := range open {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if !ex.prove(st, goals[i], level) {
				mu.Lock()
				bad[i] = true
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	return bad
}

var cellNo = regexp.MustCompile(`#\d+`)

// memoLabel drops cell numbers, which differ from path to path.
func memoLabel(s string) string { return cellNo.ReplaceAllString(s, "") }

var debugLoops = os.Getenv("GOVC_LOOPS") != ""

func (ex *Exec) enterLoop(st *State, h *ssa.BasicBlock, lp *loopInfo) {
	if st.dead {
		return
	}
	pre := st.snap()
	mod := ex.loopMods(st, h, lp)
	if st.mode == ModeDry {
		ex.havocLoop(st, mod)
		al := &activeLoop{header: h, blocks: lp.blocks, hook: func(*State) {}}
		st.top().loops = append(st.top().loops, al)
		ex.runFrom(st, h)
		return
	}
	key := ex.loopKey(st, h)
	cands := ex.candidates(st, lp, mod, pre)
	if memo, ok := ex.loopMemo[key]; ok {
		var keep []*cand
		for _, c := range cands {
			if ok, tried := memo[memoLabel(c.label)]; ok || !tried {
				keep = append(keep, c)
			}
		}
		cands = keep
	}
	var tried []string
	for _, c := range cands {
		tried = append(tried, c.label)
	}
	// established on entry
	goals := make([]*Term, len(cands))
	for i, c := range cands {
		goals[i] = c.gen(st)
	}
	bad := ex.proveAll(st, goals, ex.inferLevel)
	cands = dropCands(cands, bad)
	if debugLoops {
		fmt.Fprintf(os.Stderr, "loop %s: %d candidates hold on entry\n", key, len(cands))
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, "    entry: %s\n", c.label)
		}
	}
	// preserved by the body
	for {
		s := ex.loopState(st, ModeInfer)
		ex.havocLoop(s, mod)
		for _, c := range cands {
			s.assume(c.gen(s))
		}
		failed := map[int]bool{}
		al := &activeLoop{header: h, blocks: lp.blocks, stopAtExit: true}
		al.hook = func(e *State) {
			gs := make([]*Term, len(cands))
			for i, c := range cands {
				if failed[i] {
					gs[i] = tTrue
					continue
				}
				gs[i] = c.gen(e)
			}
			for i := range ex.proveAll(e, gs, ex.inferLevel) {
				failed[i] = true
				if debugLoops {
					fmt.Fprintf(os.Stderr, "    lost: %s\n", cands[i].label)
				}
				if debugLoops && os.Getenv("GOVC_LOOPS") == cands[i].label {
					fmt.Fprintln(os.Stderr, BuildQuery(append(append([]*Term{}, e.pc...), Not(gs[i]))))
				}
			}
		}
		s.top().loops = append(s.top().loops, al)
		ex.runFrom(s, h)
		if len(failed) == 0 {
			break
		}
		cands = dropCands(cands, failed)
		if debugLoops {
			fmt.Fprintln(os.Stderr, "    -- next round")
		}
	}
	m := map[string]bool{}
	for _, l := range tried {
		m[memoLabel(l)] = false
	}
	for _, c := range cands {
		m[memoLabel(c.label)] = true
	}
	for l, ok := range ex.loopMemo[key] {
		if _, dup := m[l]; !dup {
			m[l] = ok
		}
	}
	ex.loopMemo[key] = m
	if debugLoops {
		fmt.Fprintf(os.Stderr, "loop %s mode=%d: %d candidates inductive\n", key, st.mode, len(cands))
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, "    %s\n", c.label)
		}
	}
	var chosen *measure
	pos := ex.posOf(firstPos(h))
	if st.mode == ModeCheck && !ex.con.partial {
		chosen = ex.pickMeasure(st, h, lp, mod, cands, pre)
		if chosen == nil {
			s := st.clone()
			ex.check(s, tFalse, "termination", "no measure decreases in this loop", pos)
		}
	}
	// the verified pass: an arbitrary iteration and everything after the loop
	if mod.locks && st.mode == ModeCheck {
		ex.followups(st, pos)
	}
	ex.havocLoop(st, mod)
	for _, c := range cands {
		st.assume(c.gen(st))
	}
	var m0 *Term
	if chosen != nil {
		m0 = chosen.gen(st)
	}
	mode := st.mode
	al := &activeLoop{header: h, blocks: lp.blocks}
	al.hook = func(e *State) {
		if mode != ModeCheck {
			return
		}
		if mod.locks {
			ex.followups(e, pos)
		}
		for _, c := range cands {
			ex.check(e, c.gen(e), "loop-invariant", c.label, pos)
		}
		if chosen != nil {
			ex.check(e, And(ex.sle(ex.zeroLike(m0), m0), ex.slt(chosen.gen(e), m0)), "termination", "decreases "+chosen.label, pos)
		}
		ex.loopCount++
	}
	st.top().loops = append(st.top().loops, al)
	ex.runFrom(st, h)
}

func (ex *Exec) zeroLike(t *Term) *Term {
	if isBV(t.sort) {
		return BV(Num(0).num, bvWidth(t.sort))
	}
	return Num(0)
}

func firstPos(b *ssa.BasicBlock) ssa.Instruction {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos().IsValid() {
				return i
			}
		}
	}
	return b.Instrs[0]
}

func dropCands(cs []*cand, bad map[int]bool) []*cand {
	if len(bad) == 0 {
		return cs
	}
	var out []*cand
	for i, c := range cs {
		if !bad[i] {
			out = append(out, c)
		}
	}
	return out
}

// pickMeasure finds a well-founded measure that every iteration decreases.
func (ex *Exec) pickMeasure(st *State, h *ssa.BasicBlock, lp *loopInfo, mod *loopMod, cands []*cand, pre *Snap) *measure {
	ms := ex.measures(st, lp, mod, pre)
	s := ex.loopState(st, ModeInfer)
	ex.havocLoop(s, mod)
	for _, c := range cands {
		s.assume(c.gen(s))
	}
	m0 := make([]*Term, len(ms))
	for i, m := range ms {
		m0[i] = m.gen(s)
	}
	failed := map[int]bool{}
	al := &activeLoop{header: h, blocks: lp.blocks, stopAtExit: true}
	al.hook = func(e *State) {
		gs := make([]*Term, len(ms))
		for i, m := range ms {
			if failed[i] {
				gs[i] = tTrue
				continue
			}
			gs[i] = And(ex.sle(ex.zeroLike(m0[i]), m0[i]), ex.slt(m.gen(e), m0[i]))
		}
		for i := range ex.proveAll(e, gs, ex.inferLevel) {
			failed[i] = true
		}
	}
	s.top().loops = append(s.top().loops, al)
	ex.runFrom(s, h)
	for i, m := range ms {
		if !failed[i] {
			return m
		}
	}
	return nil
}

type cellTerm struct {
	label string
	id    int
	typ   types.Type
	mod   bool
}

// loopCells lists the variables visible to the loop.
func (ex *Exec) loopCells(st *State, mod *loopMod) []cellTerm {
	var out []cellTerm
	seen := map[int]bool{}
	for fi := len(st.frames) - 1; fi >= 0; fi-- {
		f := st.frames[fi]
		for _, id := range f.cells {
			if seen[id] || st.cells[id] == nil {
				continue
			}
			seen[id] = true
			ci := ex.cinfo[id]
			if ci.name == "$defer" {
				continue
			}
			out = append(out, cellTerm{fmt.Sprintf("%s#%d", ci.name, id), id, ci.typ, mod.cells[id]})
		}
		// cells captured by reference
		for _, v := range f.free {
			if p, ok := v.(*PtrV); ok && p.loc.cell > 0 && !seen[p.loc.cell] {
				id := p.loc.cell
				seen[id] = true
				out = append(out, cellTerm{fmt.Sprintf("%s#%d", ex.cinfo[id].name, id), id, ex.cinfo[id].typ, mod.cells[id]})
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (ex *Exec) cellVal(st *State, id int) Val { return st.cells[id] }

// intTerms are integer-valued expressions available as bounds.
type intTerm struct {
	label string
	gen   func(st *State) *Term
	mod   bool
}

func (ex *Exec) boundTerms(st *State, mod *loopMod, pre *Snap) (vars, bounds []intTerm) {
	is64 := func(t types.Type) bool {
		w, _, ok := intType(t)
		return ok && w == 64
	}
	isInt := func(t types.Type) bool {
		_, _, ok := intType(t)
		if ex.ty.bv {
			return ok && is64(t)
		}
		return ok
	}
	for _, c := range ex.loopCells(st, mod) {
		id := c.id
		if isInt(c.typ) {
			if _, ok := st.cells[id].(*Term); !ok {
				continue
			}
			it := intTerm{c.label, func(s *State) *Term { return s.cells[id].(*Term) }, c.mod}
			if c.mod {
				vars = append(vars, it)
			}
			bounds = append(bounds, it)
		}
		if _, ok := st.cells[id].(*SliceV); ok {
			bounds = append(bounds, intTerm{"len(" + c.label + ")", func(s *State) *Term { return s.cells[id].(*SliceV).len }, c.mod})
		}
	}
	return
}

func (ex *Exec) candidates(st *State, lp *loopInfo, mod *loopMod, pre *Snap) []*cand {
	var out []*cand
	add := func(label string, gen func(s *State) *Term) { out = append(out, &cand{label, gen}) }
	// user templates first
	for ti := range ex.con.loops {
		lt := ex.con.loops[ti]
		ex.instMetas(st, lt.metas, mod, pre, func(desc string, cells map[string]cellRef) {
			label := lt.c.src
			if desc != "" {
				label += " [" + desc + "]"
			}
			gen := func(s *State) *Term {
				var t *Term
				specTry("loop template "+lt.c.src, func() { t = ex.loopCtx(s, pre, cells).boolean(lt.c.expr) })
				return t
			}
			if !ex.tryGen(gen, st) {
				return
			}
			add(label, gen)
		})
	}
	vars, bounds := ex.boundTerms(st, mod, pre)
	bounds = append(bounds, ex.limits(st, lp)...)
	consts := loopConsts(lp)
	for _, v := range vars {
		v := v
		p := v.gen(&State{cells: pre.cells})
		if p.sort != SInt && !ex.ty.bv {
			continue
		}
		for _, k := range []int64{-1, 0, 1} {
			k := ex.idx(k)
			add(v.label+">="+k.String(), func(s *State) *Term { return ex.sle(k, v.gen(s)) })
		}
		add(v.label+">=pre", func(s *State) *Term { return ex.sle(p, v.gen(s)) })
		add(v.label+"<=pre", func(s *State) *Term { return ex.sle(v.gen(s), p) })
		for _, n := range consts {
			n := ex.idx(n)
			add(v.label+"<="+n.String(), func(s *State) *Term { return ex.sle(v.gen(s), n) })
			add(v.label+">="+n.String(), func(s *State) *Term { return ex.sle(n, v.gen(s)) })
		}
		for _, b := range bounds {
			b := b
			if b.label == v.label {
				continue
			}
			bp := b.gen(st)
			if bp.sort != p.sort {
				continue
			}
			add(v.label+"<="+b.label, func(s *State) *Term { return ex.sle(v.gen(s), b.gen(s)) })
			add(v.label+"<"+b.label, func(s *State) *Term { return ex.slt(v.gen(s), b.gen(s)) })
			if !b.mod {
				add(v.label+">="+b.label, func(s *State) *Term { return ex.sle(b.gen(s), v.gen(s)) })
			}
		}
	}
	// slices the loop only re-slices or appends to
	for _, c := range ex.loopCells(st, mod) {
		if !c.mod {
			continue
		}
		id := c.id
		if p, ok := st.cells[id].(*SliceV); ok {
			add("ref("+c.label+") unchanged", func(s *State) *Term { return Eq(s.cells[id].(*SliceV).ref, p.ref) })
			add("off("+c.label+") unchanged", func(s *State) *Term { return Eq(s.cells[id].(*SliceV).off, p.off) })
			add("cap("+c.label+") unchanged", func(s *State) *Term { return Eq(s.cells[id].(*SliceV).cap, p.cap) })
			add("fresh("+c.label+")", func(s *State) *Term {
				v := s.cells[id].(*SliceV)
				return Or(Le(pre.now, birth(v.ref)), Eq(v.ref, p.ref))
			})
			add("fresh-or-empty("+c.label+")", func(s *State) *Term {
				v := s.cells[id].(*SliceV)
				return Or(Le(ex.entry.now, birth(v.ref)), Eq(v.cap, ex.idx(0)))
			})
		}
	}
	// slice variables whose address is taken
	for _, c := range ex.loopCells(st, mod) {
		pt, ok := c.typ.(*types.Pointer)
		if !ok || !strings.HasPrefix(c.label, "&") {
			continue
		}
		if _, ok := pt.Elem().Underlying().(*types.Slice); !ok {
			continue
		}
		id := c.id
		at := func(s *State) *SliceV {
			sv, _ := ex.loopCtx(s, pre, map[string]cellRef{"_v": {id: id, ptr: true}}).lookupVar("_v")
			return sv.v.(*SliceV)
		}
		add("cap(*"+c.label+") unchanged", func(s *State) *Term {
			return Eq(at(s).cap, at(&State{heap: pre.heap, cells: pre.cells, now: pre.now}).cap)
		})
		add("fresh-or-empty(*"+c.label+")", func(s *State) *Term {
			v := at(s)
			return Or(Le(ex.entry.now, birth(v.ref)), Eq(v.cap, ex.idx(0)))
		})
	}
	// heap frames
	for _, k := range sortedKeys(mod.heap) {
		k := k
		i := strings.LastIndex(k, "#")
		s := Sort(k[i+1:])
		if strings.HasPrefix(string(s), "(Array Fn ") {
			// the call log: only the functions called in the loop, and only by appending
			p := pre.heap[k]
			if p == nil {
				p = ex.heapInit(k, s)
			}
			_, vs := splitArray(s)
			bs := mod.bases[k]
			if len(bs) == 0 {
				continue
			}
			add("call log "+k[:i]+": only called functions", func(st *State) *Term {
				r := BVar("f", SFn)
				cur := st.heap[k]
				if cur == nil {
					cur = ex.heapInit(k, s)
				}
				var cs []*Term
				for _, b := range bs {
					cs = append(cs, Not(Eq(r, b)))
				}
				return Forall([]*Term{r}, Imp(And(cs...), Eq(Select(cur, r), Select(p, r))), []*Term{mk("select", vs, cur, r)})
			})
			pn := pre.heap["$ev.n#"+string(ArraySort(SFn, SInt))]
			if pn == nil {
				pn = ex.heapInit("$ev.n#"+string(ArraySort(SFn, SInt)), ArraySort(SFn, SInt))
			}
			for _, b := range bs {
				b := b
				add("call log "+k[:i]+": earlier calls stay", func(st *State) *Term {
					cur := st.heap[k]
					if cur == nil {
						cur = ex.heapInit(k, s)
					}
					if vs == SInt {
						return Le(Select(p, b), Select(cur, b))
					}
					j := BVar("j", SInt)
					a := Select(cur, b)
					return Forall([]*Term{j}, Imp(Lt(j, Select(pn, b)), Eq(Select(a, j), Select(Select(p, b), j))), []*Term{Select(a, j)})
				})
			}
			continue
		}
		if !strings.HasPrefix(string(s), "(Array Ref ") {
			continue
		}
		p := pre.heap[k]
		if p == nil {
			p = ex.heapInit(k, s)
		}
		_, vs := splitArray(s)
		frame := func(hyp func(r *Term) *Term) func(st *State) *Term {
			return func(st *State) *Term {
				r := BVar("r", SRef)
				cur := st.heap[k]
				if cur == nil {
					cur = ex.heapInit(k, s)
				}
				sel := mk("select", vs, cur, r)
				return Forall([]*Term{r}, Imp(hyp(r), Eq(Select(cur, r), Select(p, r))), []*Term{sel})
			}
		}
		if strings.HasPrefix(k, "$held.") {
			add(k[:i]+": every iteration releases what it takes", frame(func(r *Term) *Term { return tTrue }))
			continue
		}
		add("frame "+k[:i]+": only fresh objects", frame(func(r *Term) *Term { return Lt(birth(r), pre.now) }))
		if ex.entry != nil && ex.entry.now != pre.now {
			add("frame "+k[:i]+": only objects of this call", frame(func(r *Term) *Term { return Lt(birth(r), ex.entry.now) }))
		}
		if bs := mod.bases[k]; len(bs) > 0 {
			add("frame "+k[:i]+": only stored bases", frame(func(r *Term) *Term {
				cs := []*Term{Lt(birth(r), pre.now)}
				for _, b := range bs {
					cs = append(cs, Not(Eq(r, b)))
				}
				return And(cs...)
			}))
		}
	}
	// the contract's own frame, relative to the entry of the function
	if ex.baseCtx != nil && ex.con != nil && ex.entry != nil {
		var m *modSet
		func() {
			defer func() {
				if r := recover(); r != nil {
					m = nil
				}
			}()
			m = ex.modSetOf(ex.con, ex.baseCtx.at(ex.entry))
		}()
		for _, k := range sortedKeys(mod.heap) {
			if m == nil {
				break
			}
			k := k
			i := strings.LastIndex(k, "#")
			s := Sort(k[i+1:])
			if !strings.HasPrefix(string(s), "(Array Ref ") {
				continue
			}
			mk1 := modKey{k[:i], s}
			p := ex.entry.heap[k]
			if p == nil {
				p = ex.heapInit(k, s)
			}
			_, vs := splitArray(s)
			curOf := func(st *State) *Term {
				if cur := st.heap[k]; cur != nil {
					return cur
				}
				return ex.heapInit(k, s)
			}
			if !m.all[mk1] {
				add("frame "+k[:i]+": the contract's", func(st *State) *Term {
					r := BVar("r", SRef)
					cur := curOf(st)
					return Forall([]*Term{r}, Imp(And(m.untouched(mk1, r), Lt(birth(r), ex.entry.now)), Eq(Select(cur, r), Select(p, r))), []*Term{mk("select", vs, cur, r)})
				})
			}
			for n, e := range m.elem[mk1] {
				e := e
				add(fmt.Sprintf("frame %s: outside window %d of the contract", k[:i], n), func(st *State) *Term {
					cur := curOf(st)
					ii := BVar("i", ex.ty.idxSort())
					a, b := Select(cur, e.ref), Select(p, e.ref)
					var others []*Term
					for _, e2 := range m.elem[mk1] {
						others = append(others, Not(And(Eq(e.ref, e2.ref), ex.sle(e2.lo, ii), ex.slt(ii, e2.hi))))
					}
					for _, o := range m.objs[mk1] {
						others = append(others, Not(Eq(e.ref, o)))
					}
					for _, f := range m.cond[mk1] {
						others = append(others, Not(f(e.ref)))
					}
					others = append(others, Lt(birth(e.ref), ex.entry.now))
					return Forall([]*Term{ii}, Imp(And(others...), Eq(Select(a, ii), Select(b, ii))), []*Term{mk("select", Select(a, ii).sort, a, ii)})
				})
			}
		}
	}
	return out
}

func (ex *Exec) tryGen(gen func(*State) *Term, st *State) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if ue, is := r.(unsupportedErr); is {
				if debugLoops {
					fmt.Fprintln(os.Stderr, "  template skipped:", ue.msg)
				}
				ok = false
				return
			}
			panic(r)
		}
	}()
	gen(st)
	return true
}

func (ex *Exec) loopCtx(s *State, pre *Snap, cells map[string]cellRef) *ectx {
	c := *ex.baseCtx
	c.cur = &Snap{s.heap, s.cells, s.now}
	c.pre = pre
	c.old = ex.entry
	c.acq, c.rel, c.rng = s.acq, s.rel, s.rng
	c.cells = cells
	return &c
}

// instMetas enumerates the variables that can stand for a template's metavariables.
func (ex *Exec) instMetas(st *State, metas []MetaVar, mod *loopMod, pre *Snap, f func(desc string, cells map[string]cellRef)) {
	cells := ex.loopCells(st, mod)
	var rec func(i int, desc []string, m map[string]cellRef)
	rec = func(i int, desc []string, m map[string]cellRef) {
		if i == len(metas) {
			cp := map[string]cellRef{}
			for k, v := range m {
				cp[k] = v
			}
			f(strings.Join(desc, ","), cp)
			return
		}
		var want types.Type
		specTry("metavariable "+metas[i].name, func() { want = ex.baseCtx.typ(metas[i].typ) })
		for _, c := range cells {
			if metas[i].moving && !c.mod || metas[i].fixed && c.mod {
				continue
			}
			if pt, ok := c.typ.(*types.Pointer); ok && strings.HasPrefix(c.label, "&") && sameType(pt.Elem(), want) {
				m[metas[i].name] = cellRef{id: c.id, ptr: true}
				rec(i+1, append(desc[:len(desc):len(desc)], metas[i].name+"=*"+c.label), m)
				continue
			}
			if !sameType(c.typ, want) {
				continue
			}
			if _, ok := st.cells[c.id].(*PtrV); ok {
				continue
			}
			incs := []int64{0}
			if _, _, ok := intType(want); ok && !metas[i].plain {
				incs = []int64{0, 1}
			}
			for _, inc := range incs {
				m[metas[i].name] = cellRef{id: c.id, inc: inc}
				d := metas[i].name + "=" + c.label
				if inc != 0 {
					d += "+1"
				}
				rec(i+1, append(desc[:len(desc):len(desc)], d), m)
			}
		}
		delete(m, metas[i].name)
	}
	rec(0, nil, map[string]cellRef{})
}

func sameType(a, b types.Type) bool {
	if ga, ok := a.(*gmap); ok {
		gb, ok := b.(*gmap)
		return ok && sameType(ga.k, gb.k) && sameType(ga.v, gb.v)
	}
	if _, ok := b.(*gmap); ok {
		return false
	}
	return types.Identical(a, b) || typeKey(a) == typeKey(b)
}

func (ex *Exec) measures(st *State, lp *loopInfo, mod *loopMod, pre *Snap) []*measure {
	var out []*measure
	for ti := range ex.con.decr {
		lt := ex.con.decr[ti]
		ex.instMetas(st, lt.metas, mod, pre, func(desc string, cells map[string]cellRef) {
			gen := func(s *State) *Term {
				var t *Term
				specTry("decreases "+lt.c.src, func() { t = ex.loopCtx(s, pre, cells).term(lt.c.expr) })
				return t
			}
			if ex.tryGen(gen, st) {
				out = append(out, &measure{lt.c.src + " [" + desc + "]", gen})
			}
		})
	}
	vars, bounds := ex.boundTerms(st, mod, pre)
	bounds = append(bounds, ex.limits(st, lp)...)
	for _, v := range vars {
		v := v
		out = append(out, &measure{v.label, v.gen})
		out = append(out, &measure{v.label + "+1", func(s *State) *Term { return ex.iadd(v.gen(s), ex.idx(1)) }})
		for _, b := range bounds {
			b := b
			if b.label == v.label || b.gen(st).sort != v.gen(st).sort {
				continue
			}
			out = append(out, &measure{b.label + "-" + v.label, func(s *State) *Term { return ex.isub(b.gen(s), v.gen(s)) }})
		}
	}
	// register-held bounds: constants compared in the header are covered by small slack
	for _, v := range vars {
		v := v
		for _, n := range constBounds(lp) {
			n := n
			out = append(out, &measure{fmt.Sprintf("%d-%s", n, v.label), func(s *State) *Term { return ex.isub(ex.idx(n), v.gen(s)) }})
		}
	}
	// registers computed before the loop (the length a range loop reads once)
	f := st.top()
	for _, v := range vars {
		v := v
		for val := range outsideRegs(lp) {
			tv, ok := f.env[val].(*Term)
			if !ok || tv.sort != v.gen(st).sort {
				continue
			}
			out = append(out, &measure{val.Name() + "-" + v.label, func(s *State) *Term { return ex.isub(tv, v.gen(s)) }})
		}
	}
	// a loop that never comes round again
	out = append(out, &measure{"0", func(*State) *Term { return ex.idx(0) }})
	// map iteration
	for _, c := range ex.loopCells(st, mod) {
		if ex.cinfo[c.id].name != "$produced" || !c.mod {
			continue
		}
		id := c.id
		for _, v := range f.env {
			if it, ok := v.(*IterV); ok && it.cnt == id {
				hk := mapKey(it.mt) + ".card"
				out = append(out, &measure{"unvisited keys", func(s *State) *Term {
					return Sub(Select(ex.heapGet(s, hk, ArraySort(SRef, SInt)), it.m), s.cells[id].(*Term))
				}})
			}
		}
	}
	return out
}

func constBounds(lp *loopInfo) []int64 {
	seen := map[int64]bool{}
	var out []int64
	for b := range lp.blocks {
		for _, ins := range b.Instrs {
			if bo, ok := ins.(*ssa.BinOp); ok {
				for _, o := range []ssa.Value{bo.X, bo.Y} {
					if c, ok := o.(*ssa.Const); ok && c.Value != nil {
						if _, _, isInt := intType(c.Type()); isInt {
							if n := c.Int64(); !seen[n] {
								seen[n] = true
								out = append(out, n)
							}
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func outsideRegs(lp *loopInfo) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for b := range lp.blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if in, ok := (*op).(ssa.Instruction); ok && !lp.blocks[in.Block()] {
					if _, _, isInt := intType((*op).Type()); isInt {
						out[*op] = true
					}
				}
			}
		}
	}
	return out
}

// limits are values the loop compares something with: computed before the loop, or read
// inside it through memory (a field, or the length of one) from what was there before.
func (ex *Exec) limits(st *State, lp *loopInfo) (out []intTerm) {
	env := st.top().env
	tsub := st.top().tsub
	outside := func(v ssa.Value) (Val, bool) {
		switch x := v.(type) {
		case ssa.Instruction:
			if lp.blocks[x.Block()] {
				return nil, false
			}
		case *ssa.Parameter:
		case *ssa.FreeVar:
			for i, fv := range st.top().fn.FreeVars {
				if fv == x && i < len(st.top().free) {
					return st.top().free[i], true
				}
			}
			return nil, false
		default:
			return nil, false
		}
		r, ok := env[v]
		return r, ok
	}
	var eval func(v ssa.Value, d int) func(s *State) Val
	eval = func(v ssa.Value, d int) func(s *State) Val {
		if r, ok := outside(v); ok {
			return func(*State) Val { return r }
		}
		if d > 6 {
			return nil
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			if in := eval(x.X, d+1); in != nil {
				return func(s *State) Val { return ex.load(s, ex.toLoc(in(s), tsub.apply(x.X.Type()))) }
			}
		case *ssa.FieldAddr:
			if in := eval(x.X, d+1); in != nil {
				return func(s *State) Val {
					l := ex.toLoc(in(s), tsub.apply(x.X.Type()))
					l.path = append(l.path[:len(l.path):len(l.path)], PE{field: fieldName(x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)})
					l.typ = tsub.apply(x.Type().Underlying().(*types.Pointer).Elem())
					return &PtrV{l}
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && len(x.Call.Args) == 1 {
				if in := eval(x.Call.Args[0], d+1); in != nil {
					return func(s *State) Val {
						switch y := in(s).(type) {
						case *SliceV:
							return y.len
						}
						return nil
					}
				}
			}
		}
		return nil
	}
	seen := map[*Term]bool{}
	for _, b := range lp.header.Parent().Blocks {
		if !lp.blocks[b] {
			continue
		}
		for _, ins := range b.Instrs {
			x, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch x.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			for _, o := range []ssa.Value{x.X, x.Y} {
				if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL {
					if _, ok := u.X.(*ssa.Alloc); ok {
						continue // a local variable: known already
					}
				}
				g := eval(o, 0)
				if g == nil {
					continue
				}
				term := func(s *State) *Term { t, _ := g(s).(*Term); return t }
				var t *Term
				ex.tryGen(func(s *State) *Term { t = term(s); return t }, st)
				if t != nil && t.sort == ex.ty.idxSort() && t.op != "num" && !seen[t] {
					seen[t] = true
					_, before := outside(o)
					out = append(out, intTerm{"limit " + o.Name(), term, !before})
				}
			}
		}
	}
	return
}

// loopConsts lists the integer constants the loop compares with.
func loopConsts(lp *loopInfo) []int64 {
	seen := map[int64]bool{}
	for b := range lp.blocks {
		for _, ins := range b.Instrs {
			x, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch x.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			for _, o := range []ssa.Value{x.X, x.Y} {
				if c, ok := o.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
					if n, ok := constant.Int64Val(c.Value); ok && (n > 1 || n < -1) {
						seen[n] = true
					}
				}
			}
		}
	}
	var out []int64
	for n := range seen {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
