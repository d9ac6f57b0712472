package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

const tokLSS = token.LSS

// FuncReport is the outcome of verifying one function against its contract.
type FuncReport struct {
	Func    string   `json:"func"`
	Inst    string   `json:"instance,omitempty"`
	Exits   int      `json:"exits"`
	VCs     []*VC    `json:"-"`
	Err     string   `json:"error,omitempty"`
	Used    []string `json:"used,omitempty"`
	Notes   []string `json:"notes,omitempty"`
	Sec     float64  `json:"sec"`
	Partial bool     `json:"partial,omitempty"`
}

func newExec(ld *Loader, db *SpecDB, con *Contract, name string) *Exec {
	return &Exec{ld: ld, ty: &typer{bv: con.bv}, con: con, db: db, name: name, fset: ld.fset,
		cinfo: map[int]cellInfo{}, initHeap: map[string]*Term{}, fnTerms: map[*Term]*FuncV{}, ifaces: map[*Term]ifaceInfo{},
		used: map[string]bool{}, inlined: map[string]bool{}, loopMemo: map[string]map[string]bool{}, pureFns: map[*Term]bool{}, lockBases: map[string][]*Term{}, guarded: map[modKey]bool{}, onceKeys: map[string]bool{}}
}

func verifyContract(ld *Loader, db *SpecDB, con *Contract) []*FuncReport {
	if con.lemma != nil {
		return []*FuncReport{verifyLemma(ld, db, con)}
	}
	// name@variant is one more contract of the same function, used by no caller
	key, _, _ := strings.Cut(con.key, "@")
	fn := ld.funcs[key]
	if fn == nil {
		return []*FuncReport{{Func: con.key, Err: "the function under contract does not exist in the current source"}}
	}
	insts := con.inst
	if len(insts) == 0 {
		insts = []map[string]string{nil}
	}
	out := make([]*FuncReport, len(insts))
	var wg sync.WaitGroup
	for i, in := range insts {
		wg.Add(1)
		go func(i int, in map[string]string) {
			defer wg.Done()
			out[i] = verifyFunc(ld, db, con, fn, in, 1)
			if out[i].unproved() && slow == 1 && time.Since(began) < secondChance {
				// once more with more time for finding the loop invariants
				if again := verifyFunc(ld, db, con, fn, in, 4); !again.unproved() {
					out[i] = again
				}
			}
		}(i, in)
	}
	wg.Wait()
	return out
}

var began = time.Now()

// secondChance is how long into a run a function whose proof failed is still tried a second time.
const secondChance = 120 * time.Second

// unproved says obligations of the function are open, all of it having been within reach.
func (r *FuncReport) unproved() bool {
	if r.Err != "" {
		return false
	}
	for _, v := range r.VCs {
		if v.Verdict != "unsat" {
			return true
		}
	}
	return false
}

// inferLevel is the solver level at which loop invariants are looked for, see solveBody1.
func verifyFunc(ld *Loader, db *SpecDB, con *Contract, fn *ssa.Function, inst map[string]string, inferLevel int) (rep *FuncReport) {
	name := con.key
	instName := ""
	tsub := tsubst{}
	for _, tp := range fnTypeParams(fn) {
		if b, ok := inst[tp.Obj().Name()]; ok {
			instName += tp.Obj().Name() + "=" + b + " "
			tsub[tp] = types.Universe.Lookup(b).Type()
		}
	}
	if instName != "" {
		name += " [" + strings.TrimSpace(instName) + "]"
	}
	ex := newExec(ld, db, con, name)
	ex.inferLevel = inferLevel
	rep = &FuncReport{Func: con.key, Inst: strings.TrimSpace(instName), Notes: con.notes, Partial: con.partial}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupportedErr:
				rep.Err = e.msg
			case specErr:
				rep.Err = e.msg
			default:
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				rep.Err = fmt.Sprintf("internal: %v", r)
			}
		}
		ex.wg.Wait()
		rep.VCs = ex.vcs
		rep.Exits = ex.exits
		rep.Used = sortedKeys(ex.used)
	}()
	st := &State{cells: map[int]Val{}, heap: map[string]*Term{}, now: Num(0), mode: ModeCheck}
	if len(con.uses) > 0 {
		st.assume(Var(usesMark+","+strings.Join(con.uses, ","), SBool))
	}
	sig := fn.Signature
	var args []Val
	for i, p := range fn.Params {
		nm := p.Name()
		if i < len(con.params) {
			nm = con.params[i]
		}
		args = append(args, ex.freshVal(st, "p_"+nm, tsub.apply(p.Type())))
	}
	var free []Val
	for _, fv := range fn.FreeVars {
		// a captured variable: a cell shared with the enclosing function
		t := tsub.apply(fv.Type())
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			id := ex.newCell(st, fv.Name(), pt.Elem(), ex.freshVal(st, "c_"+fv.Name(), pt.Elem()))
			free = append(free, &PtrV{Loc{cell: id, typ: pt.Elem()}})
			ex.freeCells = append(ex.freeCells, freeCell{fv.Name(), id, pt.Elem()})
		} else {
			free = append(free, ex.freshVal(st, "c_"+fv.Name(), t))
		}
	}
	ctx := ex.newCtx(con, fn, sig, tsub, args)
	ctx.vars = map[string]SV{}
	for i, p := range fn.Params {
		ctx.vars[con.params[i]] = SV{args[i], tsub.apply(p.Type())}
	}
	for _, fc := range ex.freeCells {
		ctx.vars[fc.name] = SV{st.cells[fc.id], fc.typ}
	}
	// a contract with a then clause speaks of the function returned, called at once with fresh arguments
	var thenSig *types.Signature
	var thenArgs []Val
	if con.then && con.thenFn == nil && !con.thenGo {
		if sig.Results().Len() == 1 {
			thenSig, _ = sig.Results().At(0).Type().Underlying().(*types.Signature)
		}
		if thenSig == nil || thenSig.Params().Len() != len(con.thenArgs) {
			rep.Err = "then: the function does not return such a function"
			return rep
		}
		for i, nm := range con.thenArgs {
			t := tsub.apply(thenSig.Params().At(i).Type())
			v := ex.freshVal(st, "p_"+nm, t)
			thenArgs = append(thenArgs, v)
			ctx.vars[nm] = SV{v, t}
		}
	}
	for _, g := range con.given {
		specTry(con.pos, func() {
			t := ctx.typ(g.typ)
			ctx.vars[g.name] = SV{ex.freshVal(st, "g_"+g.name, t), t}
		})
	}
	for _, p := range con.pure {
		sv, ok := ctx.vars[p]
		if !ok {
			panic(unsupported("pure %s: no such parameter", p))
		}
		ex.pureFns[ctx.asTerm(sv, nil)] = true
	}
	ex.entry = st.snap()
	ctx.cur, ctx.old = ex.entry, ex.entry
	ex.baseCtx = ctx
	specTry(con.pos, func() {
		ex.loadAxioms(ctx)
		for _, r := range con.requires {
			st.assume(ctx.boolean(r.expr))
		}
	})
	// the precondition must not be contradictory
	if st.dead || solve(st.pc, 1).V == Unsat {
		rep.Err = "the precondition is unsatisfiable"
		return rep
	}
	ex.onPanic = func(s *State) {
		if s.mode != ModeCheck {
			return
		}
		ex.exits++
		c := *ctx
		specTry(con.pos, func() {
			c.cur = s.snap()
			c.old = ex.entry
			c.acq, c.rel, c.rng = s.acq, s.rel, s.rng
			for _, e := range con.onpanic {
				ex.check(s, c.boolean(e.expr), "postcondition on panic", lbl(e), con.pos)
			}
			ex.checkLocks(s, con.pos)
		})
	}
	ex.pushCall(st, fn, tsub, args, free, func(s *State, rets []Val) {
		if s.mode != ModeCheck || s.dead {
			return
		}
		if con.thenGo {
			ex.goroutines(s, ctx, con, sig, tsub, rets)
			return
		}
		if con.then {
			thenSig, thenArgs, ctx := thenSig, thenArgs, ctx
			var fv *FuncV
			ok, direct := false, false
			if con.thenFn == nil {
				fv, ok = rets[0].(*FuncV)
			} else {
				specTry("contract of "+con.key, func() {
					c := *ctx
					c.vars = map[string]SV{}
					for k, v := range ctx.vars {
						c.vars[k] = v
					}
					plain := *con
					plain.then = false
					c.bindResults(&plain, sig, tsub, rets)
					c.cur, c.old = s.snap(), ex.entry
					if fv, thenSig = ex.thenMethod(&c, con.thenFn); fv != nil {
						ok, direct = true, true
						for _, nm := range con.thenArgs {
							thenArgs = append(thenArgs, ctx.vars[nm].v)
						}
						ctx = &c
						return
					}
					sv := c.eval(con.thenFn)
					if fv, ok = sv.v.(*FuncV); !ok || fv.fn == nil {
						fv, ok = ex.fnTerms[c.asTerm(sv, nil)]
					}
					thenSig, _ = sv.t.Underlying().(*types.Signature)
					for _, nm := range con.thenArgs {
						thenArgs = append(thenArgs, ctx.vars[nm].v)
					}
					ctx = &c
				})
			}
			if !ok || fv.fn == nil || thenSig == nil {
				panic(unsupported("then: the function returned is not known"))
			}
			// making the function changes and calls nothing; from there on it may be called at any time:
			// the captured variables it changes itself hold anything
			before := ex.entry
			defer func() { ex.entry = before }()
			if !direct {
				specTry("contract of "+con.key, func() {
					quiet := *con
					quiet.modifies = nil
					c := *ctx
					c.cur, c.old = s.snap(), ex.entry
					ex.checkFrame(s, &quiet, &c, con.pos)
				})
				ex.havocCaptured(s, fv)
			}
			ex.entry = s.snap()
			targs := thenArgs
			if fv.bound != nil {
				targs = append([]Val{fv.bound}, targs...)
			}
			ex.pushCall(s, fv.fn, fv.tsub, targs, fv.free, func(s *State, rets []Val) {
				if s.mode != ModeCheck || s.dead {
					return
				}
				ex.atExit(s, ctx, con, thenSig, tsub, rets)
			})
			return
		}
		ex.atExit(s, ctx, con, sig, tsub, rets)
	})
	ex.wg.Wait()
	if ex.exits == 0 && rep.Err == "" {
		allProved := true
		for _, v := range ex.vcs {
			if v.Verdict != "unsat" {
				allProved = false
			}
		}
		if allProved {
			rep.Err = "no path reaches an exit: the contract is vacuous"
		}
	}
	return rep
}

// goroutines verifies the bodies of the goroutines that were started, except of those with a contract of their own.
// They run at any time: everything shared may have changed.
func (ex *Exec) goroutines(s *State, ctx *ectx, con *Contract, sig *types.Signature, tsub tsubst, rets []Val) {
	c := *ctx
	specTry("contract of "+con.key, func() {
		c.vars = map[string]SV{}
		for k, v := range ctx.vars {
			c.vars[k] = v
		}
		plain := *con
		plain.then, plain.thenGo = false, false
		c.bindResults(&plain, sig, tsub, rets)
	})
	before, base, free := ex.entry, ex.baseCtx, ex.freeCells
	defer func() { ex.entry, ex.baseCtx, ex.freeCells = before, base, free }()
	for _, sp := range s.spawned {
		g := s.clone()
		ex.havocCaptured(g, sp.fn)
		for _, k := range sortedKeys(g.heap) {
			if strings.HasPrefix(k, "$held.") {
				delete(g.heap, k)
				continue
			}
			i := strings.LastIndex(k, "#")
			if ex.immutable(k[:i]) {
				continue
			}
			h := Fresh("G."+k[:i], Sort(k[i+1:]))
			ex.heapAxioms(h, Sort(k[i+1:]), g.now)
			g.heap[k] = h
		}
		g.acq, g.rel, g.nacq, g.rng, g.spawned = nil, nil, 0, nil, nil
		g.path = append(g.path, "goroutine "+goName(sp.fn.fn))
		ex.entry = g.snap()
		c := c
		c.cur, c.old = ex.entry, ex.entry
		ex.baseCtx = &c
		// what the others are relied on to keep at all times, not only while a lock is free
		specTry("contract of "+con.key, func() {
			for _, r := range con.rely {
				if !strings.Contains(r.src, "acq(") {
					g.assume(c.boolean(r.expr))
				}
			}
		})
		gsig := plainSig(nil, nil)
		ex.pushCall(g, sp.fn.fn, sp.fn.tsub, sp.args, sp.fn.free, func(e *State, _ []Val) {
			if e.mode != ModeCheck || e.dead {
				return
			}
			plain := *con
			plain.then, plain.thenGo = false, false
			plain.results = nil
			ex.atExit(e, &c, &plain, gsig, tsub, nil)
		})
	}
}

// immutable says the heap key belongs to a field declared immutable; that it is only ever set where its
// struct is made is checked here.
func (ex *Exec) immutable(key string) bool {
	for im := range ex.db.immutable {
		i := strings.LastIndex(im, ".")
		tn, field := im[:i], im[i+1:]
		if key != im && !strings.HasPrefix(key, im+".$") {
			continue
		}
		for _, f := range ex.ld.funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					fa, ok := ins.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					t := fa.X.Type().Underlying().(*types.Pointer).Elem()
					if typeKey(t) != tn || fieldName(t, fa.Field) != field {
						continue
					}
					_, made := fa.X.(*ssa.Alloc)
					for _, r := range *fa.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if !made || r.Addr != fa {
								return false
							}
						default:
							return false
						}
					}
				}
			}
		}
		return true
	}
	return false
}

// havocCaptured forgets the captured variables that the closure, or a closure it makes, assigns.
func (ex *Exec) havocCaptured(st *State, fv *FuncV) {
	for i, v := range fv.free {
		p, ok := v.(*PtrV)
		if !ok || i >= len(fv.fn.FreeVars) || !assigns(fv.fn, fv.fn.FreeVars[i], 0) {
			continue
		}
		ex.store(st, p.loc, ex.freshVal(st, "c_"+fv.fn.FreeVars[i].Name(), p.loc.typ))
	}
}

// assigns reports whether v, the address of a captured variable, is used for anything but reading it.
func assigns(fn *ssa.Function, v ssa.Value, depth int) bool {
	if v.Referrers() == nil || depth > 8 {
		return true
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if assigns(fn, r, depth+1) {
				return true
			}
		case *ssa.MakeClosure:
			g := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && assigns(g, g.FreeVars[i], depth+1) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func lbl(c Clause) string {
	if c.label != "" {
		return c.label + ": " + c.src
	}
	return c.src
}

// thenMethod is the method that a then clause calls on one of the function's own values: the contract speaks of
// that call, made right after the function returned.
func (ex *Exec) thenMethod(c *ectx, e ast.Expr) (*FuncV, *types.Signature) {
	sel, ok := e.(*ast.SelectorExpr)
	if !ok {
		return nil, nil
	}
	recv := c.eval(sel.X)
	t := recv.t
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil, nil
	}
	obj, _, _ := types.LookupFieldOrMethod(recv.t, true, n.Obj().Pkg(), sel.Sel.Name)
	m, ok := obj.(*types.Func)
	if !ok {
		return nil, nil
	}
	fn := ex.ld.prog.FuncValue(m.Origin())
	if fn == nil {
		panic(serr("no body for method %s", sel.Sel.Name))
	}
	tsub := tsubst{}
	for i, tp := range fnTypeParams(fn) {
		tsub[tp] = n.TypeArgs().At(i)
	}
	return &FuncV{fn: fn, tsub: tsub, bound: recv.v}, m.Type().(*types.Signature)
}

// smokeTest (GOVC_SMOKE) tells of every exit whether a contradiction is found behind it.
var smokeTest = os.Getenv("GOVC_SMOKE") != ""

type freeCell struct {
	name string
	id   int
	typ  types.Type
}

func (ex *Exec) atExit(s *State, ctx *ectx, con *Contract, sig *types.Signature, tsub tsubst, rets []Val) {
	if debugExit {
		fmt.Fprintln(os.Stderr, "exit:", strings.Join(s.path, ">"))
	}
	// an exit behind contradictory facts proves nothing
	if solve(s.pc, 0).V == Unsat {
		return
	}
	if smokeTest {
		v := solve(ex.withFacts(append([]*Term{}, s.pc...)), 4).V
		fmt.Fprintln(os.Stderr, "SMOKE", v, ex.name, strings.Join(s.path, ">"))
	}
	ex.exits++
	specTry("contract of "+con.key, func() {
		c := *ctx
		c.vars = map[string]SV{}
		for k, v := range ctx.vars {
			c.vars[k] = v
		}
		c.old = ex.entry
		c.acq, c.rel, c.rng = s.acq, s.rel, s.rng
		c.bindResults(con, sig, tsub, rets)
		c.cells = map[string]cellRef{}
		for _, fc := range ex.freeCells {
			c.cells[fc.name] = cellRef{id: fc.id}
		}
		// ghost witnesses
		for _, set := range con.sets {
			c.cur = s.snap()
			l, ok := c.loc(set.lhs)
			if !ok {
				panic(serr("set %s: not a location", set.src))
			}
			sv := c.coerce(c.eval(set.rhs), l.typ)
			ex.quietGuard = true
			ex.store(s, l, sv.v)
			ex.quietGuard = false
		}
		c.cur = s.snap()
		ex.asserts(s, &c, con)
		states := []*State{s}
		for _, sp := range con.splits {
			t := c.boolean(sp.expr)
			var next []*State
			for _, x := range states {
				y := x.clone()
				x.assume(t)
				y.assume(Not(t))
				next = append(next, x, y)
			}
			states = next
		}
		for _, s := range states {
			c.wit = ex.intLocals(s)
			for _, e := range con.ensures {
				ex.check(s, c.boolean(e.expr), "postcondition", lbl(e), con.pos)
			}
			ex.checkFrame(s, con, &c, con.pos)
			ex.checkLocks(s, con.pos)
			ex.followups(s, con.pos)
		}
	})
}

// intLocals lists what the 64-bit integer variables hold.
func (ex *Exec) intLocals(s *State) (out []*Term) {
	var ids []int
	for id := range s.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	seen := map[*Term]bool{}
	for _, id := range ids {
		t, ok := s.cells[id].(*Term)
		if !ok || t.sort != SInt || seen[t] || t.op == "num" {
			continue
		}
		if w, _, _ := intType(ex.cinfo[id].typ); w != 64 {
			continue
		}
		seen[t] = true
		if out = append(out, t); len(out) == 16 {
			break
		}
	}
	return out
}

var debugExit = os.Getenv("GOVC_EXIT") != ""

func verifyLemma(ld *Loader, db *SpecDB, con *Contract) (rep *FuncReport) {
	ex := newExec(ld, db, con, con.key)
	rep = &FuncReport{Func: con.key, Exits: 1}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupportedErr:
				rep.Err = e.msg
			case specErr:
				rep.Err = e.msg
			default:
				panic(r)
			}
		}
		ex.wg.Wait()
		rep.VCs = ex.vcs
	}()
	st := &State{cells: map[int]Val{}, heap: map[string]*Term{}, now: Num(0), mode: ModeCheck}
	if len(con.uses) > 0 {
		st.assume(Var(usesMark+","+strings.Join(con.uses, ","), SBool))
	}
	c := &ectx{ex: ex, db: db, pkg: con.pkg, vars: map[string]SV{}, tenv: map[string]types.Type{}}
	if len(con.lemma.trigger) > 0 {
		// usable as an axiom elsewhere: proved for all mathematical integers, without itself and later lemmas
		st.assume(Var(fmt.Sprintf("%s%d", lemmaMark, con.lemma.idx), SBool))
		for _, m := range con.lemma.vars {
			_, rng := c.lemmaVar(m, Fresh)
			for _, r := range rng {
				st.assume(r)
			}
		}
	}
	for _, m := range con.lemma.vars {
		if len(con.lemma.trigger) > 0 {
			break
		}
		t := c.typ(m.typ)
		c.vars[m.name] = SV{ex.freshVal(st, "l_"+m.name, t), t}
	}
	c.cur = st.snap()
	c.old = c.cur
	ex.entry = c.cur
	ex.loadAxioms(c)
	for _, r := range con.requires {
		st.assume(c.boolean(r.expr))
	}
	ex.asserts(st, c, con)
	for _, e := range con.ensures {
		ex.check(st, c.boolean(e.expr), "lemma", lbl(e), con.pos)
	}
	return rep
}

// asserts proves the contract's intermediate assertions and inductions; later obligations may use them.
func (ex *Exec) asserts(s *State, c *ectx, con *Contract) {
	for _, a := range con.asserts {
		if a.induct == nil {
			ex.check(s, c.boolean(a.expr), "assertion", lbl(a), con.pos)
			continue
		}
		nm, t := c.binder(a.induct[0])
		lo, hi := c.term(a.induct[1]), c.term(a.induct[2])
		at := func(k *Term) *Term { return c.with(nm, SV{k, t}).boolean(a.expr) }
		b := s.clone()
		b.assume(ex.sle(lo, hi))
		ex.check(b, at(lo), "induction base", lbl(a), con.pos)
		st := s.clone()
		k := Fresh("ind", lo.sort)
		st.assume(And(ex.sle(lo, k), ex.slt(k, hi), at(k)))
		ex.check(st, at(ex.iadd(k, ex.idx(1))), "induction step", lbl(a), con.pos)
		bv := BVar(nm, lo.sort)
		s.assume(Forall([]*Term{bv}, Imp(And(ex.sle(lo, bv), ex.sle(bv, hi)), at(bv))))
		s.assume(Imp(ex.sle(lo, hi), at(hi)))
	}
}
