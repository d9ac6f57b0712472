package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func bigOf(v constant.Value) *big.Int {
	v = constant.ToInt(v)
	switch x := constant.Val(v).(type) {
	case int64:
		return big.NewInt(x)
	case *big.Int:
		return x
	}
	panic(unsupported("constant %s", v))
}

// evalCall evaluates callee and arguments now.
func (ex *Exec) evalCall(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	var fv Val
	if c.IsInvoke() {
		fv = ex.val(st, c.Value)
	} else {
		fv = ex.val(st, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, ex.val(st, a))
	}
	return fv, args
}

func (ex *Exec) call(st *State, ins ssa.Instruction, c *ssa.CallCommon, k Kont) {
	fv, args := ex.evalCall(st, c)
	ex.callVal(st, ins, c, fv, args, k)
}

func (ex *Exec) callVal(st *State, ins ssa.Instruction, c *ssa.CallCommon, fv Val, args []Val, k Kont) {
	f := st.top()
	if c.IsInvoke() {
		ex.invoke(st, ins, c, fv, args, k)
		return
	}
	switch x := fv.(type) {
	case *ssa.Builtin:
		ex.builtin(st, ins, c, x, args, k)
	case *FuncV:
		if x.fn == nil {
			if ex.fnCases(st, ins, c, x.term(), args, k) {
				return
			}
			ex.check(st, Not(Eq(x.term(), nilFn)), "panic-freedom", "call of nil function", ex.posOf(ins))
			sig := f.tsub.apply(c.Signature()).(*types.Signature)
			ex.unknownCall(st, x.term(), sig, args, ins, k)
			return
		}
		if x.bound != nil {
			args = append([]Val{x.bound}, args...)
		}
		ex.callFn(st, ins, x, args, k)
	default:
		panic(unsupported("call of %T", fv))
	}
}

func (ex *Exec) callFn(st *State, ins ssa.Instruction, fv *FuncV, args []Val, k Kont) {
	fn := fv.fn
	tsub := fv.tsub
	org := fn
	if o := fn.Origin(); o != nil {
		org = o
		tsub = tsubst{}
		tps := fnTypeParams(o)
		for i, ta := range fn.TypeArgs() {
			tsub[tps[i]] = fv.tsub.apply(ta)
		}
	} else if org.Parent() == nil && len(fnTypeParams(org)) == 0 {
		tsub = nil
	}
	key := funcKey(org)
	if h, ok := intrinsics[key]; ok {
		ex.use("intrinsic " + key)
		h(ex, st, ins, args, org, tsub, k)
		return
	}
	con, ok := ex.db.contracts[key]
	if ok && (len(con.inst) > 0 || con.then) && !con.extern {
		ok = false
	}
	if ok && con.callsKnown(args) {
		ok = false
	}
	if ok && !ex.con.inline[shortKey(key)] && (con.extern || key != ex.con.key || st.frames != nil) {
		ex.use("contract " + key)
		ex.applyContract(st, ins, con, org, org.Signature, tsub, args, k)
		return
	}
	inRepo := org.Pkg != nil && ex.ld.pkgs[relPkg(org.Pkg.Pkg.Path())] != nil
	if org.Pkg == nil && org.Parent() != nil {
		inRepo = true
	}
	if org.Parent() != nil {
		inRepo = true
	}
	if strings.HasPrefix(org.Synthetic, "bound method wrapper") || strings.HasPrefix(org.Synthetic, "wrapper") {
		inRepo = true
	}
	if !inRepo && org.Pkg != nil && stdInline[org.Pkg.Pkg.Path()] {
		inRepo = true
	}
	if inRepo && len(org.Blocks) > 0 {
		if org.Parent() == nil {
			ex.use("inlined " + key)
		}
		ex.pushCall(st, org, tsub, args, fv.free, func(s *State, rets []Val) { k(s, rets) })
		return
	}
	panic(unsupported("call of %s, which has no contract", key))
}

// callsKnown says that a contract counts the calls of an argument that is a function literal:
// what these calls do is known only from its body, so the callee is verified with the caller.
func (con *Contract) callsKnown(args []Val) bool {
	if con.extern || con.invoke {
		return false
	}
	for i, p := range con.params {
		if i >= len(args) {
			break
		}
		f, ok := args[i].(*FuncV)
		if !ok || f.fn == nil || f.fn.Parent() == nil {
			continue
		}
		for _, c := range con.modifies {
			if strings.Contains(c.src, "calls("+p+")") {
				return true
			}
		}
	}
	return false
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, "/"); i >= 0 {
		k = k[i+1:]
	}
	if i := strings.Index(k, "."); i >= 0 {
		return k[i+1:]
	}
	return k
}

func fnTypeParams(f *ssa.Function) []*types.TypeParam {
	var out []*types.TypeParam
	for p := f; p != nil; p = p.Parent() {
		if l := p.Signature.RecvTypeParams(); l != nil {
			for i := 0; i < l.Len(); i++ {
				out = append(out, l.At(i))
			}
		}
		if l := p.Signature.TypeParams(); l != nil {
			for i := 0; i < l.Len(); i++ {
				out = append(out, l.At(i))
			}
		}
		if len(out) > 0 {
			return out
		}
	}
	// ssa keeps them in TypeParams()
	if l := f.TypeParams(); l != nil {
		for i := 0; i < l.Len(); i++ {
			out = append(out, l.At(i))
		}
	}
	return out
}

func (ex *Exec) use(s string) {
	ex.mu.Lock()
	ex.used[s] = true
	ex.mu.Unlock()
}

// applyContract replaces a call by the callee's contract.
func (ex *Exec) applyContract(st *State, ins ssa.Instruction, con *Contract, fn *ssa.Function, sig *types.Signature, tsub tsubst, args []Val, k Kont) {
	var rets []Val
	specTry("contract of "+con.key+" at "+ex.posOf(ins), func() {
		c := ex.newCtx(con, fn, sig, tsub, args)
		old := st.snap()
		c.cur, c.old = old, old
		ex.loadAxioms(c)
		ex.pureArgs(st, ins, con, c)
		for _, r := range con.requires {
			ex.check(st, c.boolean(r.expr), "precondition", shortKey(con.key)+": "+r.src, ex.posOf(ins))
		}
		old = st.snap()
		c.cur, c.old = old, old
		// effects
		ex.havocModifies(st, con, c)
		for i := 0; i < sig.Results().Len(); i++ {
			rets = append(rets, ex.freshVal(st, "r_"+fn.Name(), tsub.apply(sig.Results().At(i).Type())))
		}
		c.cur = st.snap()
		c.bindResults(con, sig, tsub, rets)
		for _, e := range con.ensures {
			st.assume(c.boolean(e.expr))
		}
	})
	if st.dead {
		return
	}
	k(st, rets)
}

type modKey struct {
	key  string
	sort Sort
}

// modSet describes which objects may change for each heap key.
type modSet struct {
	all   map[modKey]bool
	objs  map[modKey][]*Term               // base references
	cond  map[modKey][]func(r *Term) *Term // predicate on references
	elem  map[modKey][]elemRange           // element windows
	cell  []Loc
	order []modKey
	fn    map[*Term]bool // callables that may be called
	fnAll bool
}

type elemRange struct{ ref, lo, hi *Term }

func (m *modSet) note(k modKey) {
	for _, o := range m.order {
		if o == k {
			return
		}
	}
	m.order = append(m.order, k)
}

// modKeys lists the heap keys of a location.
func (ex *Exec) locKeys(l Loc) []modKey {
	key, idx := ex.locKey(l)
	var out []modKey
	for _, lf := range ex.ty.leaves(l.typ) {
		s := lf.Sort
		if idx != nil || l.elem {
			s = ArraySort(ex.ty.idxSort(), s)
		}
		out = append(out, modKey{key + lf.Suf, ArraySort(SRef, s)})
	}
	return out
}

func (ex *Exec) mapKeys(t *types.Map) []modKey {
	ks := ex.ty.scalarSort(t.Key())
	out := []modKey{{mapKey(t) + ".dom", ArraySort(SRef, ArraySort(ks, SBool))}, {mapKey(t) + ".card", ArraySort(SRef, SInt)}}
	for _, lf := range ex.ty.leaves(t.Elem()) {
		out = append(out, modKey{mapKey(t) + ".val" + lf.Suf, ArraySort(SRef, ArraySort(ks, lf.Sort))})
	}
	return out
}

func (c *ectx) ghostKeys(t types.Type, prefix string) []modKey {
	var out []modKey
	if gs, ok := c.db.ghostsOf(t); ok {
		for _, g := range gs {
			ft := c.fieldType(t, g.name)
			for _, lf := range c.ex.ty.leaves(ft) {
				out = append(out, modKey{prefix + "." + g.name + lf.Suf, ArraySort(SRef, lf.Sort)})
			}
		}
	}
	return out
}

func (ex *Exec) modSetOf(con *Contract, c *ectx) *modSet {
	m := &modSet{all: map[modKey]bool{}, objs: map[modKey][]*Term{}, cond: map[modKey][]func(*Term) *Term{}, elem: map[modKey][]elemRange{}, fn: map[*Term]bool{}}
	addLoc := func(l Loc) {
		if l.cell > 0 {
			m.cell = append(m.cell, l)
			return
		}
		for _, k := range ex.locKeys(l) {
			m.note(k)
			if l.elem && l.idx != nil {
				m.elem[k] = append(m.elem[k], elemRange{l.base, l.idx, Add(l.idx, Num(1))})
				continue
			}
			m.objs[k] = append(m.objs[k], l.base)
		}
	}
	for _, cl := range con.modifies {
		switch x := cl.expr.(type) {
		case *ast.Ident:
			if x.Name == "nothing" {
				continue
			}
			if l, ok := c.loc(x); ok {
				addLoc(l)
				continue
			}
		case *ast.CallExpr:
			id, _ := x.Fun.(*ast.Ident)
			if id == nil {
				break
			}
			switch id.Name {
			case "elems": // elems(s) or elems(s, lo, hi): element window relative to s
				sv := c.eval(x.Args[0])
				s := sv.v.(*SliceV)
				for _, lf := range ex.ty.leaves(s.elem) {
					k := modKey{"[]" + typeKey(s.elem) + lf.Suf, ArraySort(SRef, ArraySort(ex.ty.idxSort(), lf.Sort))}
					m.note(k)
					if len(x.Args) == 3 {
						m.elem[k] = append(m.elem[k], elemRange{s.ref, ex.iadd(s.off, c.index(x.Args[1])), ex.iadd(s.off, c.index(x.Args[2]))})
					} else {
						m.elem[k] = append(m.elem[k], elemRange{s.ref, s.off, ex.iadd(s.off, s.len)})
					}
				}
				continue
			case "contents": // contents(m): a Go map's contents
				sv := c.eval(x.Args[0])
				for _, k := range ex.mapKeys(sv.t.Underlying().(*types.Map)) {
					m.note(k)
					m.objs[k] = append(m.objs[k], sv.v.(*Term))
				}
				continue
			case "all": // all(Type.field): any object; all(Type.field, *T(x), cond)
				se := x.Args[0].(*ast.SelectorExpr)
				t := c.typ(se.X)
				ft := c.fieldType(t, se.Sel.Name)
				if ft == nil {
					panic(serr("no field %s", exprStr(se)))
				}
				l := Loc{base: nilRef, root: typeKey(t), path: []PE{{field: se.Sel.Name}}, typ: ft}
				for _, k := range ex.locKeys(l) {
					m.note(k)
					if len(x.Args) == 3 {
						nm, bt := c.binder(x.Args[1])
						body := x.Args[2]
						cc := c
						m.cond[k] = append(m.cond[k], func(r *Term) *Term { return cc.with(nm, SV{r, bt}).boolean(body) })
					} else {
						m.all[k] = true
					}
				}
				continue
			case "pool": // pool(s.pool): what is in a sync.Pool
				k, b := c.poolLoc(x.Args[0])
				mk := modKey{k, poolSort}
				m.note(mk)
				m.objs[mk] = append(m.objs[mk], b)
				continue
			case "chclosed": // chclosed(ch): the channel may be closed; chclosed(): any channel
				mk := modKey{"$chan.closed", closedSort}
				m.note(mk)
				if len(x.Args) == 0 {
					m.all[mk] = true
					continue
				}
				m.objs[mk] = append(m.objs[mk], c.asTerm(c.eval(x.Args[0]), x.Args[0]))
				continue
			case "calls": // calls(f): the contract's function calls f
				for _, a := range x.Args {
					m.fn[c.fnTerm(a)] = true
				}
				continue
			case "callsAny":
				m.fnAll = true
				continue
			case "object": // object(p): every field of *p, ghost fields included
				sv := c.eval(x.Args[0])
				l := ex.toLoc(sv.v, sv.t)
				addLoc(l)
				if l.cell == 0 {
					pk, _ := ex.locKey(l)
					for _, k := range c.ghostKeys(l.typ, pk) {
						m.note(k)
						m.objs[k] = append(m.objs[k], l.base)
					}
				}
				continue
			}
		}
		l, ok := c.loc(cl.expr)
		if !ok {
			panic(serr("modifies %s is not a location", cl.src))
		}
		addLoc(l)
	}
	return m
}

func (ex *Exec) allocKeys(con *Contract, c *ectx) map[modKey]bool {
	out := map[modKey]bool{}
	for _, e := range con.allocs {
		if id, ok := e.(*ast.Ident); ok && id.Name == "anything" {
			out[modKey{"*", ""}] = true
			continue
		}
		t := c.typ(e)
		switch u := t.Underlying().(type) {
		case *types.Slice:
			for _, lf := range ex.ty.leaves(u.Elem()) {
				out[modKey{"[]" + typeKey(u.Elem()) + lf.Suf, ArraySort(SRef, ArraySort(ex.ty.idxSort(), lf.Sort))}] = true
			}
			if _, named := types.Unalias(t).(*types.Named); named {
				for _, k := range ex.locKeys(Loc{base: nilRef, root: typeKey(t), typ: t}) {
					out[k] = true
				}
			}
		case *types.Map:
			for _, k := range ex.mapKeys(u) {
				out[k] = true
			}
		default:
			for _, k := range ex.locKeys(Loc{base: nilRef, root: typeKey(t), typ: t}) {
				out[k] = true
			}
			for _, k := range c.ghostKeys(t, typeKey(t)) {
				out[k] = true
			}
		}
	}
	return out
}

// untouched says reference r of key k is outside the modifies clause.
func (m *modSet) untouched(k modKey, r *Term) *Term {
	if m.all[k] {
		return tFalse
	}
	var cs []*Term
	for _, o := range m.objs[k] {
		cs = append(cs, Not(Eq(r, o)))
	}
	for _, f := range m.cond[k] {
		cs = append(cs, Or(Eq(r, nilRef), Not(f(r)))) // nothing is ever stored through nil
	}
	for _, e := range m.elem[k] {
		cs = append(cs, Not(Eq(r, e.ref)))
	}
	return And(cs...)
}

func (ex *Exec) havocModifies(st *State, con *Contract, c *ectx) {
	m := ex.modSetOf(con, c)
	al := ex.allocKeys(con, c)
	oldNow := st.now
	if len(con.allocs) > 0 {
		n := Fresh("now", SInt)
		st.assume(Le(oldNow, n))
		st.now = n
	}
	keys := append([]modKey{}, m.order...)
	for k := range al {
		found := false
		for _, o := range keys {
			if o == k {
				found = true
			}
		}
		if !found && k.key != "*" {
			keys = append(keys, k)
		}
	}
	for _, k := range keys {
		h := ex.heapGet(st, k.key, k.sort)
		if ex.dryLog != nil && st.mode == ModeDry {
			for _, o := range m.objs[k] {
				ex.dryLog = append(ex.dryLog, dryStore{k.key + "#" + string(k.sort), o})
			}
			for _, e := range m.elem[k] {
				ex.dryLog = append(ex.dryLog, dryStore{k.key + "#" + string(k.sort), e.ref})
			}
		}
		// objects listed explicitly: store fresh content (keeps the frame explicit in the term)
		if !m.all[k] && len(m.cond[k]) == 0 && len(m.elem[k]) == 0 && !al[k] {
			_, vs := splitArray(k.sort)
			for _, o := range m.objs[k] {
				nv := Fresh("hv", vs)
				h = Store(h, o, nv)
				if vs == SRef {
					st.assume(Lt(birth(nv), st.now))
				}
				ex.elemRefAxiom(nv, vs, st.now)
			}
			st.heap[k.key+"#"+string(k.sort)] = h
			continue
		}
		n := Fresh("H."+k.key, k.sort)
		ex.heapAxioms(n, k.sort, st.now)
		r := BVar("r", SRef)
		un := m.untouched(k, r)
		if al[k] {
			un = And(un, Lt(birth(r), oldNow))
		}
		st.assume(Forall([]*Term{r}, Imp(un, Eq(Select(n, r), Select(h, r))), []*Term{mk("select", Select(n, r).sort, n, r)}))
		for _, e := range m.elem[k] {
			i := BVar("i", ex.ty.idxSort())
			a, b := Select(n, e.ref), Select(h, e.ref)
			var others []*Term
			for _, e2 := range m.elem[k] {
				others = append(others, Not(And(Eq(e.ref, e2.ref), ex.sle(e2.lo, i), ex.slt(i, e2.hi))))
			}
			for _, o := range m.objs[k] {
				others = append(others, Not(Eq(e.ref, o)))
			}
			st.assume(Forall([]*Term{i}, Imp(And(others...), Eq(Select(a, i), Select(b, i))), []*Term{mk("select", Select(a, i).sort, a, i)}))
		}
		st.heap[k.key+"#"+string(k.sort)] = n
	}
	for _, l := range m.cell {
		nv := ex.freshVal(st, "cell", l.typ)
		ex.store(st, l, nv)
	}
	if len(m.fn) > 0 || m.fnAll {
		ex.havocEvents(st, m)
	}
}

// elemRefAxiom bounds references inside a havocked inner array.
func (ex *Exec) elemRefAxiom(nv *Term, vs Sort, now *Term) {
	if strings.HasPrefix(string(vs), "(Array ") {
		k2, v2 := splitArray(vs)
		if v2 == SRef {
			i := BVar("i", k2)
			s2 := mk("select", v2, nv, i)
			addVarAxiom(nv, Forall([]*Term{i}, Lt(birth(s2), now), []*Term{s2}))
		}
	}
}

// checkFrame proves that nothing outside the modifies clause changed.
func (ex *Exec) checkFrame(st *State, con *Contract, c *ectx, pos string) {
	oc := c.at(c.old)
	m := ex.modSetOf(con, oc)
	al := ex.allocKeys(con, oc)
	entry := c.old
	for _, hk := range sortedKeys(st.heap) {
		cur := st.heap[hk]
		i := strings.LastIndex(hk, "#")
		k := modKey{hk[:i], Sort(hk[i+1:])}
		if strings.HasPrefix(k.key, "$held.") || strings.HasPrefix(k.key, "$tally") || k.key == "$chan.cap" {
			continue
		}
		if ex.guarded[k] && st.acq == nil && len(con.sections) > 0 {
			continue // what happens under the lock is in the sections
		}
		old := entry.heap[hk]
		if old == nil {
			old = ex.heapInit(hk, k.sort)
		}
		if cur == old {
			continue
		}
		if ex.guarded[k] && st.acq != nil {
			// state shared through a lock: the frame is relative to the acquisition
			if a := st.acq.heap[hk]; a != nil {
				old = a
			}
			if cur == old {
				continue
			}
		}
		if strings.HasPrefix(k.key, "$ev.") {
			ex.checkEventFrame(st, m, k, cur, old, pos)
			continue
		}
		if m.all[k] {
			continue
		}
		lbl := "frame of " + k.key
		r := Fresh("fr", SRef)
		hyp := And(m.untouched(k, r), Lt(birth(r), entry.now))
		if !al[k] && !al[modKey{"*", ""}] && !ex.con.extern {
			// a fresh object of an unlisted type must not be visible to callers: only warn by obligation
			hyp = And(m.untouched(k, r), Or(Lt(birth(r), entry.now), tFalse))
			if ex.freshStored(st, k, cur, old, entry) {
				ex.check(st, tFalse, "frame", "fresh "+k.key+" is not listed in allocs", pos)
			}
		}
		s2 := st.clone()
		s2.assume(hyp)
		ex.check(s2, Eq(Select(cur, r), Select(old, r)), "frame", lbl, pos)
		for _, e := range m.elem[k] {
			s3 := st.clone()
			ii := Fresh("fi", ex.ty.idxSort())
			var others []*Term
			for _, e2 := range m.elem[k] {
				others = append(others, Not(And(Eq(e.ref, e2.ref), ex.sle(e2.lo, ii), ex.slt(ii, e2.hi))))
			}
			for _, o := range m.objs[k] {
				others = append(others, Not(Eq(e.ref, o)))
			}
			for _, f := range m.cond[k] {
				others = append(others, Not(f(e.ref)))
			}
			s3.assume(And(others...))
			s3.assume(Lt(birth(e.ref), entry.now))
			ex.check(s3, Eq(Select(Select(cur, e.ref), ii), Select(Select(old, e.ref), ii)), "frame", lbl+" outside the window", pos)
		}
	}
}

// freshStored reports whether the key was written at an object allocated by this function
// that is not certainly a local temporary.
func (ex *Exec) freshStored(st *State, k modKey, cur, old *Term, entry *Snap) bool {
	return false
}

func (ex *Exec) checkEventFrame(st *State, m *modSet, k modKey, cur, old *Term, pos string) {
	if k.key == "$ev.clock" || m.fnAll {
		return
	}
	f := Fresh("ff", SFn)
	var cs []*Term
	for g := range m.fn {
		cs = append(cs, Not(Eq(f, g)))
	}
	s2 := st.clone()
	s2.assume(And(cs...))
	ex.check(s2, Eq(Select(cur, f), Select(old, f)), "frame", "no other callback is called ("+k.key+")", pos)
}

func (ex *Exec) havocEvents(st *State, m *modSet) {
	for _, hk := range ex.evKeysKnown(st) {
		i := strings.LastIndex(hk, "#")
		k := modKey{hk[:i], Sort(hk[i+1:])}
		h := ex.heapGet(st, k.key, k.sort)
		if k.key == "$ev.clock" {
			n := Fresh("clock", SInt)
			st.assume(Le(h, n))
			st.heap[hk] = n
			continue
		}
		if m.fnAll {
			st.heap[hk] = Fresh("ev", k.sort)
			continue
		}
		_, vs := splitArray(k.sort)
		for f := range m.fn {
			h = Store(h, f, Fresh("ev", vs))
		}
		st.heap[hk] = h
	}
}

func (ex *Exec) evKeysKnown(st *State) []string {
	seen := map[string]bool{"$ev.n#" + string(ArraySort(SFn, SInt)): true, "$ev.clock#Int": true, "$ev.tick#" + string(ArraySort(SFn, ArraySort(SInt, SInt))): true}
	for k := range st.heap {
		if strings.HasPrefix(k, "$ev.") {
			seen[k] = true
		}
	}
	ex.mu.Lock()
	for k := range ex.initHeap {
		if strings.HasPrefix(k, "$ev.") {
			seen[k] = true
		}
	}
	ex.mu.Unlock()
	return sortedKeys(seen)
}

// pureArgs makes sure that what is passed for a pure parameter is one: a pure
// parameter of the caller, or a function whose body, run here on arbitrary
// arguments, changes nothing; its results then define what applying it yields.
func (ex *Exec) pureArgs(st *State, ins ssa.Instruction, con *Contract, c *ectx) {
	for _, p := range con.pure {
		sv, ok := c.vars[p]
		if !ok {
			panic(serr("pure %s: no such parameter", p))
		}
		t := c.asTerm(sv, nil)
		if ex.pureFns[t] {
			continue
		}
		fv, ok := sv.v.(*FuncV)
		if !ok {
			fv, ok = ex.fnTerms[t]
		}
		if !ok || fv.fn == nil {
			panic(unsupported("%s: the function passed for %s is not known to be pure", ex.posOf(ins), p))
		}
		ex.definePure(st, ins, fv, t)
	}
}

func (ex *Exec) definePure(st *State, ins ssa.Instruction, fv *FuncV, t *Term) {
	sig := fv.fn.Signature
	if fv.sig != nil {
		sig = fv.sig
	}
	s := st.clone()
	n0 := len(s.pc)
	var args []Val
	flat := []*Term{t}
	for i := 0; i < sig.Params().Len(); i++ {
		pt := fv.tsub.apply(sig.Params().At(i).Type())
		v := ex.freshVal(s, "arg", pt)
		args = append(args, v)
		flat = append(flat, ex.ty.flatten(v, pt)...)
	}
	before := s.snap()
	var facts []*Term
	mark := freshMark()
	{
		ex.callFn(s, ins, fv, args, func(e *State, rets []Val) {
			if len(e.pc) < n0 {
				panic(unsupported("a pure function loses facts"))
			}
			for k, h := range e.heap {
				if old, ok := before.heap[k]; ok && old != h || !ok && h != ex.initHeap[k] {
					panic(unsupported("%s: the function passed as pure writes %s", ex.posOf(ins), k))
				}
			}
			for id, v := range before.cells {
				if e.cells[id] != v {
					panic(unsupported("%s: the function passed as pure writes a captured variable", ex.posOf(ins)))
				}
			}
			var eqs []*Term
			for i, r := range rets {
				rt := fv.tsub.apply(sig.Results().At(i).Type())
				a := ex.applyPure(rt, flat)
				x, y := ex.ty.flatten(a, rt), ex.ty.flatten(r, rt)
				for j := range x {
					eqs = append(eqs, Eq(x[j], y[j]))
				}
			}
			facts = append(facts, Imp(And(append([]*Term{}, e.pc[n0:]...)...), And(eqs...)))
		})
	}
	m := map[*Term]*Term{}
	var bvs []*Term
	for i, a := range flat[1:] {
		b := BVar(fmt.Sprintf("pa%d", i), a.sort)
		bvs = append(bvs, b)
		m[a] = b
	}
	for _, f := range facts {
		if f == tTrue {
			continue
		}
		f = Subst(f, m)
		if !stableTerm(f, mark) {
			panic(unsupported("%s: the result of the function passed as pure is not determined by its arguments", ex.posOf(ins)))
		}
		st.assume(Forall(bvs, f))
	}
}

// ---------- unknown functions ----------

func (ex *Exec) applyPure(t types.Type, args []*Term) Val {
	nm := "apply"
	for _, a := range args[1:] {
		nm += "," + string(a.sort)
	}
	var ts []*Term
	for _, lf := range ex.ty.leaves(t) {
		ts = append(ts, UF(nm+">"+string(lf.Sort)+lf.Suf, lf.Sort, args...))
	}
	return ex.ty.unflat(t, ts)
}

func tupleVal(rets []Val) []Val { return rets }

// unknownCall models the call of a function value that is not known: the call is logged with its
// arguments and results; the results are arbitrary.
func (ex *Exec) unknownCall(st *State, f *Term, sig *types.Signature, args []Val, ins ssa.Instruction, k Kont) {
	ex.callTracked(st, f, sig, args, ins, k)
}

func (ex *Exec) callTracked(st *State, f *Term, sig *types.Signature, args []Val, ins ssa.Instruction, k Kont) {
	if ex.pureFns[f] {
		var flat []*Term
		flat = append(flat, f)
		for i := 0; i < sig.Params().Len(); i++ {
			flat = append(flat, ex.ty.flatten(args[i], sig.Params().At(i).Type())...)
		}
		var rets []Val
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			v := ex.applyPure(rt, flat)
			ex.typeAssume(st, v, rt)
			rets = append(rets, v)
		}
		k(st, rets)
		return
	}
	ns := ArraySort(SFn, SInt)
	cnt := ex.heapGet(st, "$ev.n", ns)
	n := Select(cnt, f)
	st.assumeOnce(Le(Num(0), n))
	set := func(key string, srt Sort, v *Term) {
		hs := ArraySort(SFn, ArraySort(SInt, srt))
		h := ex.heapGet(st, key, hs)
		ex.logStore(st, key, hs, f)
		st.heapSet(key, hs, Store(h, f, Store(Select(h, f), n, v)))
	}
	put := func(kind string, j int, v Val, t types.Type) {
		ls := ex.ty.leaves(t)
		for i, x := range ex.ty.flatten(v, t) {
			set(evKey(kind, j, ls[i]), ls[i].Sort, x)
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		put("arg", i, args[i], sig.Params().At(i).Type())
	}
	clk := ex.heapGet(st, "$ev.clock", SInt)
	set("$ev.tick", SInt, clk)
	// the history as it really happens: the call at this instant
	st.assume(And(Eq(UF("ev.who", SFn, clk), f), Eq(UF("ev.callno", SInt, clk), n)))
	st.heapSet("$ev.clock", SInt, Add(clk, Num(1)))
	ex.logStore(st, "$ev.n", ns, f)
	st.heapSet("$ev.n", ns, Store(cnt, f, Add(n, Num(1))))
	if ex.con != nil && len(ex.con.onpanic) > 0 && st.mode == ModeCheck && !ex.noPanicPath {
		s2 := st.clone()
		s2.heapSet("$ev.panicker", SFn, f)
		s2.path = append(s2.path, "callback-panics")
		ex.unwind(s2)
	}
	var rets []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		v := ex.freshVal(st, "cb", rt)
		put("ret", i, v, rt)
		rets = append(rets, v)
	}
	k(st, rets)
}

func (ex *Exec) invoke(st *State, ins ssa.Instruction, c *ssa.CallCommon, recv Val, args []Val, k Kont) {
	r := recv.(*Term)
	f := st.top()
	if inf, ok := ex.ifaces[r]; ok {
		// statically known dynamic type
		ms := ex.ld.prog.MethodSets.MethodSet(inf.typ)
		if sel := ms.Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
			if fn := ex.ld.prog.MethodValue(sel); fn != nil {
				ex.callFn(st, ins, &FuncV{fn: fn, sig: fn.Signature}, append([]Val{inf.val}, args...), k)
				return
			}
		}
	}
	ex.check(st, Not(Eq(r, nilIface)), "panic-freedom", "method call on nil interface", ex.posOf(ins))
	sig := f.tsub.apply(c.Method.Type()).(*types.Signature)
	if con, ok := ex.db.contracts[ifaceKey(c)]; ok {
		ex.use("contract " + con.key)
		isig := types.NewSignatureType(types.NewVar(0, nil, "", c.Value.Type()), nil, nil, sig.Params(), sig.Results(), sig.Variadic())
		// contracts of interface methods: receiver first
		ex.applyIface(st, ins, con, isig, append([]Val{recv}, args...), k)
		return
	}
	ex.unknownCall(st, UF("method_"+c.Method.Name(), SFn, r), sig, args, ins, k)
}

func ifaceKey(c *ssa.CallCommon) string {
	t := c.Value.Type()
	n := typeFullName(t)
	if n == "" {
		n = t.String()
	}
	n = strings.TrimPrefix(n, modPath+"/")
	return n + "." + c.Method.Name()
}

func (ex *Exec) applyIface(st *State, ins ssa.Instruction, con *Contract, sig *types.Signature, args []Val, k Kont) {
	var rets []Val
	specTry("contract of "+con.key, func() {
		c := ex.newCtx(con, nil, sig, nil, args)
		old := st.snap()
		c.cur, c.old = old, old
		ex.loadAxioms(c)
		for _, r := range con.requires {
			ex.check(st, c.boolean(r.expr), "precondition", con.key+": "+r.src, ex.posOf(ins))
		}
		ex.havocModifies(st, con, c)
		for i := 0; i < sig.Results().Len(); i++ {
			rets = append(rets, ex.freshVal(st, "ri", sig.Results().At(i).Type()))
		}
		c.cur = st.snap()
		c.bindResults(con, sig, nil, rets)
		for _, e := range con.ensures {
			st.assume(c.boolean(e.expr))
		}
	})
	if !st.dead {
		k(st, rets)
	}
}

// ---------- builtins ----------

func (ex *Exec) builtin(st *State, ins ssa.Instruction, c *ssa.CallCommon, b *ssa.Builtin, args []Val, k Kont) {
	f := st.top()
	T := func(i int) types.Type { return f.tsub.apply(c.Args[i].Type()) }
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if b.Name() == "cap" {
				k(st, []Val{x.cap})
			} else {
				k(st, []Val{x.len})
			}
			return
		case *ArrV:
			k(st, []Val{ex.idx(x.n)})
			return
		case *PtrV:
			at := T(0).Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			k(st, []Val{ex.idx(at.Len())})
			return
		case *Term:
			if x.sort == SStr {
				l := UF("strlen", SInt, x)
				st.assumeOnce(Le(Num(0), l))
				st.assumeOnce(Le(l, NumBig(maxLen)))
				k(st, []Val{l})
				return
			}
			if mt, ok := T(0).Underlying().(*types.Map); ok {
				ex.guardCheckContents(st, mt, x, false, ins)
				card := Select(ex.heapGet(st, mapKey(mt)+".card", ArraySort(SRef, SInt)), x)
				r := Ite(Eq(x, nilRef), Num(0), card)
				st.assumeOnce(Le(Num(0), r))
				st.assumeOnce(Le(r, NumBig(maxLen)))
				ks := ex.ty.scalarSort(mt.Key())
				dom := Select(ex.heapGet(st, mapKey(mt)+".dom", ArraySort(SRef, ArraySort(ks, SBool))), x)
				st.assumeOnce(Imp(Eq(r, Num(0)), Or(Eq(x, nilRef), Eq(dom, ConstArr(ks, tFalse)))))
				k(st, []Val{r})
				return
			}
		}
		panic(unsupported("%s of %s", b.Name(), T(0)))
	case "append":
		ex.appendOp(st, ins, args[0].(*SliceV), args[1], k)
		return
	case "copy":
		dst := args[0].(*SliceV)
		src, ok := args[1].(*SliceV)
		if !ok {
			src = ex.strToSliceVal(st, args[1].(*Term), dst.elem)
		}
		n := Ite(ex.sle(dst.len, src.len), dst.len, src.len)
		if ex.prove2(st, ex.sle(src.len, dst.len)) {
			n = src.len
		} else if ex.prove2(st, ex.sle(dst.len, src.len)) {
			n = dst.len
		}
		ex.copyElems(st, dst.ref, dst.off, src.ref, src.off, n, dst.elem)
		k(st, []Val{n})
		return
	case "delete":
		ex.mapDelete(st, T(0).Underlying().(*types.Map), args[0].(*Term), args[1], ins)
		k(st, nil)
		return
	case "min", "max":
		t := T(0)
		r := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			lt := ex.binop(st, tokLSS, y, r, t, t, ins).(*Term)
			if b.Name() == "max" {
				lt = ex.binop(st, tokLSS, r, y, t, t, ins).(*Term)
			}
			r = Ite(lt, y, r)
		}
		k(st, []Val{r})
		return
	case "close":
		ex.chanClose(st, args[0].(*Term), ins)
		k(st, nil)
		return
	case "clear":
		switch x := args[0].(type) {
		case *SliceV:
			z := ex.ty.flatten(ex.zero(x.elem), x.elem)
			for i, lf := range ex.ty.leaves(x.elem) {
				hs := ArraySort(SRef, ArraySort(ex.ty.idxSort(), lf.Sort))
				key := "[]" + typeKey(x.elem) + lf.Suf
				h := ex.heapGet(st, key, hs)
				n := Fresh("clr", ArraySort(ex.ty.idxSort(), lf.Sort))
				bv := BVar("i", ex.ty.idxSort())
				addVarAxiom(n, Forall([]*Term{bv}, Eq(Select(n, bv), Ite(And(ex.sle(x.off, bv), ex.slt(bv, ex.iadd(x.off, x.len))), z[i], Select(Select(h, x.ref), bv))), []*Term{mk("select", lf.Sort, n, bv)}))
				ex.logStore(st, key, hs, x.ref)
				st.heapSet(key, hs, Store(h, x.ref, n))
			}
			k(st, nil)
			return
		case *Term:
			mt := T(0).Underlying().(*types.Map)
			ex.guardCheckContents(st, mt, x, true, ins)
			ks := ex.ty.scalarSort(mt.Key())
			dk, ck := ArraySort(SRef, ArraySort(ks, SBool)), ArraySort(SRef, SInt)
			ex.logStore(st, mapKey(mt)+".dom", dk, x)
			st.heapSet(mapKey(mt)+".dom", dk, Store(ex.heapGet(st, mapKey(mt)+".dom", dk), x, ConstArr(ks, tFalse)))
			st.heapSet(mapKey(mt)+".card", ck, Store(ex.heapGet(st, mapKey(mt)+".card", ck), x, Num(0)))
			k(st, nil)
			return
		}
	case "recover":
		if !st.panicking {
			k(st, []Val{nilIface})
			return
		}
		panic(unsupported("recover"))
	case "ssa:deferstack":
		k(st, []Val{Num(0)})
		return
	case "ssa:wrapnilchk":
		if t, ok := args[0].(*Term); ok {
			ex.check(st, Not(Eq(t, nilRef)), "panic-freedom", "nil receiver", ex.posOf(ins))
		}
		k(st, []Val{args[0]})
		return
	}
	panic(unsupported("builtin %s", b.Name()))
}

func (ex *Exec) prove2(st *State, g *Term) bool {
	return st.mode != ModeDry && ex.prove(st, g, 0)
}

func (ex *Exec) logStore(st *State, key string, s Sort, base *Term) {
	if st.mode == ModeDry {
		ex.dryLog = append(ex.dryLog, dryStore{key + "#" + string(s), base})
	}
}

// copyElems is memmove of n elements.
func (ex *Exec) copyElems(st *State, dref, doff, sref, soff, n *Term, el types.Type) {
	for _, lf := range ex.ty.leaves(el) {
		hs := ArraySort(SRef, ArraySort(ex.ty.idxSort(), lf.Sort))
		key := "[]" + typeKey(el) + lf.Suf
		h := ex.heapGet(st, key, hs)
		src := Select(h, sref)
		dst := Select(h, dref)
		na := ex.blit(dst, doff, src, soff, n, lf.Sort)
		ex.logStore(st, key, hs, dref)
		st.heapSet(key, hs, Store(h, dref, na))
	}
}

// blit is dst with n elements of src (from soff) placed at doff.
func (ex *Exec) blit(dst, doff, src, soff, n *Term, es Sort) *Term {
	if n.op == "num" && n.num.IsInt64() && n.num.Int64() <= 4 || n.op == "bv" && n.num.Int64() <= 4 {
		r := dst
		for i := int64(0); i < n.num.Int64(); i++ {
			r = Store(r, ex.iadd(doff, ex.idx(i)), Select(src, ex.iadd(soff, ex.idx(i))))
		}
		return r
	}
	na := Fresh("blit", ArraySort(ex.ty.idxSort(), es))
	bv := BVar("i", ex.ty.idxSort())
	in := And(ex.sle(doff, bv), ex.slt(bv, ex.iadd(doff, n)))
	from := Select(src, ex.iadd(ex.isub(bv, doff), soff))
	addVarAxiom(na, Forall([]*Term{bv}, Eq(Select(na, bv), Ite(in, from, Select(dst, bv))), []*Term{mk("select", es, na, bv)}))
	// the same facts driven by reads of the source
	bv2 := BVar("j", ex.ty.idxSort())
	if src != dst || soff != doff {
		in2 := And(ex.sle(soff, bv2), ex.slt(bv2, ex.iadd(soff, n)))
		addVarAxiom(na, Forall([]*Term{bv2}, Imp(in2, Eq(Select(na, ex.iadd(ex.isub(bv2, soff), doff)), Select(src, bv2))), []*Term{mk("select", es, src, bv2)}))
	}
	bv3 := BVar("j", ex.ty.idxSort())
	in3 := And(ex.sle(doff, bv3), ex.slt(bv3, ex.iadd(doff, n)))
	addVarAxiom(na, Forall([]*Term{bv3}, Imp(Not(in3), Eq(Select(na, bv3), Select(dst, bv3))), []*Term{mk("select", es, dst, bv3)}))
	return na
}

func (ex *Exec) appendOp(st *State, ins ssa.Instruction, s *SliceV, xs Val, k Kont) {
	var y *SliceV
	switch v := xs.(type) {
	case *SliceV:
		y = v
	case *Term:
		if v.sort == SStr {
			y = ex.strToSliceVal(st, v, s.elem)
		} else {
			y = ex.zero(types.NewSlice(s.elem)).(*SliceV)
		}
	}
	nl := ex.iadd(s.len, y.len)
	// appending nothing returns the slice unchanged
	if y.len == ex.idx(0) {
		k(st, []Val{s})
		return
	}
	st.assume(ex.sle(nl, ex.idxBig(maxLen))) // longer slices cannot exist
	fits := ex.sle(nl, s.cap)
	if s.cap == ex.idx(0) && s.len == ex.idx(0) {
		fits = Eq(y.len, ex.idx(0))
	}
	ex.split(st, fits, "append-in-place", func(t *State) {
		ex.copyElems(t, s.ref, ex.iadd(s.off, s.len), y.ref, y.off, y.len, s.elem)
		k(t, []Val{&SliceV{s.ref, s.off, nl, s.cap, s.elem}})
	}, func(t *State) {
		r := ex.newRef(t, "app")
		nc := Fresh("cap", ex.ty.idxSort())
		t.assume(And(ex.sle(nl, nc), ex.sle(nc, ex.idxBig(maxLen))))
		for _, lf := range ex.ty.leaves(s.elem) {
			hs := ArraySort(SRef, ArraySort(ex.ty.idxSort(), lf.Sort))
			key := "[]" + typeKey(s.elem) + lf.Suf
			h := ex.heapGet(t, key, hs)
			// content: s then y
			var base *Term
			if s.len == ex.idx(0) {
				base = Fresh("newarr", ArraySort(ex.ty.idxSort(), lf.Sort))
				ex.elemRefAxiom(base, base.sort, t.now)
			} else if s.off == ex.idx(0) {
				base = Select(h, s.ref)
			} else {
				base0 := Fresh("newarr", ArraySort(ex.ty.idxSort(), lf.Sort))
				ex.elemRefAxiom(base0, base0.sort, t.now)
				base = ex.blit(base0, ex.idx(0), Select(h, s.ref), s.off, s.len, lf.Sort)
			}
			na := ex.blit(base, s.len, Select(h, y.ref), y.off, y.len, lf.Sort)
			t.heapSet(key, hs, Store(h, r, na))
		}
		k(t, []Val{&SliceV{r, ex.idx(0), nl, nc, s.elem}})
	})
}

// ---------- maps ----------

func (ex *Exec) makeMap(st *State, t types.Type) Val {
	r := ex.newRef(st, "map")
	mt := t.Underlying().(*types.Map)
	ks := ex.ty.scalarSort(mt.Key())
	dk, ck := ArraySort(SRef, ArraySort(ks, SBool)), ArraySort(SRef, SInt)
	st.heapSet(mapKey(mt)+".dom", dk, Store(ex.heapGet(st, mapKey(mt)+".dom", dk), r, ConstArr(ks, tFalse)))
	st.heapSet(mapKey(mt)+".card", ck, Store(ex.heapGet(st, mapKey(mt)+".card", ck), r, Num(0)))
	return r
}

func (ex *Exec) mapDom(st *State, mt *types.Map, m, key *Term) *Term {
	h := ex.heapGet(st, mapKey(mt)+".dom", ArraySort(SRef, ArraySort(key.sort, SBool)))
	return And(Not(Eq(m, nilRef)), Select(Select(h, m), key))
}

func (ex *Exec) keyTerm(v Val, t types.Type) *Term {
	ts := ex.ty.flatten(v, t)
	if len(ts) != 1 {
		panic(unsupported("composite map key %s", t))
	}
	return ts[0]
}

func (ex *Exec) lookup(st *State, x *ssa.Lookup) Val {
	f := st.top()
	mt, ok := f.tsub.apply(x.X.Type()).Underlying().(*types.Map)
	if !ok {
		s := ex.val(st, x.X).(*Term)
		i := ex.val(st, x.Index).(*Term)
		ex.check(st, And(Le(Num(0), i), Lt(i, UF("strlen", SInt, s))), "panic-freedom", "string index in range", ex.posOf(x))
		r := UF("strat", SInt, s, i)
		ex.typeAssume(st, r, types.Typ[types.Uint8])
		return r
	}
	m := ex.val(st, x.X).(*Term)
	key := ex.keyTerm(ex.val(st, x.Index), mt.Key())
	ex.guardCheckContents(st, mt, m, false, x)
	d := ex.mapDom(st, mt, m, key)
	var ts []*Term
	z := ex.ty.flatten(ex.zero(mt.Elem()), mt.Elem())
	for i, lf := range ex.ty.leaves(mt.Elem()) {
		h := ex.heapGet(st, mapKey(mt)+".val"+lf.Suf, ArraySort(SRef, ArraySort(key.sort, lf.Sort)))
		ts = append(ts, Ite(d, Select(Select(h, m), key), z[i]))
	}
	v := ex.ty.unflat(mt.Elem(), ts)
	ex.typeAssume(st, v, mt.Elem())
	v = ex.resolve(v, mt.Elem())
	if x.CommaOk {
		return &TupleV{[]Val{v, d}}
	}
	return v
}

func (ex *Exec) mapUpdate(st *State, x *ssa.MapUpdate) {
	f := st.top()
	mt := f.tsub.apply(x.Map.Type()).Underlying().(*types.Map)
	m := ex.val(st, x.Map).(*Term)
	ex.check(st, Not(Eq(m, nilRef)), "panic-freedom", "assignment to nil map", ex.posOf(x))
	ex.guardCheckContents(st, mt, m, true, x)
	ex.mapPut(st, mt, m, ex.keyTerm(ex.val(st, x.Key), mt.Key()), ex.val(st, x.Value))
}

func (ex *Exec) mapPut(st *State, mt *types.Map, m, key *Term, v Val) {
	if f, ok := v.(*FuncV); ok {
		ex.fnTerms[f.term()] = f
	}
	dk, ck := ArraySort(SRef, ArraySort(key.sort, SBool)), ArraySort(SRef, SInt)
	hd := ex.heapGet(st, mapKey(mt)+".dom", dk)
	hc := ex.heapGet(st, mapKey(mt)+".card", ck)
	was := Select(Select(hd, m), key)
	// a nil map has no keys: deleting from it changes nothing
	st.assume(Imp(Eq(m, nilRef), And(Not(was), Eq(Store(Select(hd, m), key, tFalse), Select(hd, m)))))
	ex.logStore(st, mapKey(mt)+".dom", dk, m)
	ex.logStore(st, mapKey(mt)+".card", ck, m)
	st.heapSet(mapKey(mt)+".card", ck, Store(hc, m, Ite(was, Select(hc, m), Add(Select(hc, m), Num(1)))))
	st.heapSet(mapKey(mt)+".dom", dk, Store(hd, m, Store(Select(hd, m), key, tTrue)))
	ts := ex.ty.flatten(v, mt.Elem())
	for i, lf := range ex.ty.leaves(mt.Elem()) {
		hs := ArraySort(SRef, ArraySort(key.sort, lf.Sort))
		k := mapKey(mt) + ".val" + lf.Suf
		h := ex.heapGet(st, k, hs)
		ex.logStore(st, k, hs, m)
		st.heapSet(k, hs, Store(h, m, Store(Select(h, m), key, ts[i])))
	}
}

func (ex *Exec) mapDelete(st *State, mt *types.Map, m *Term, kv Val, ins ssa.Instruction) {
	key := ex.keyTerm(kv, mt.Key())
	ex.guardCheckContents(st, mt, m, true, ins)
	dk, ck := ArraySort(SRef, ArraySort(key.sort, SBool)), ArraySort(SRef, SInt)
	hd := ex.heapGet(st, mapKey(mt)+".dom", dk)
	hc := ex.heapGet(st, mapKey(mt)+".card", ck)
	was := Select(Select(hd, m), key)
	// a nil map has no keys: deleting from it changes nothing
	st.assume(Imp(Eq(m, nilRef), And(Not(was), Eq(Store(Select(hd, m), key, tFalse), Select(hd, m)))))
	ex.logStore(st, mapKey(mt)+".dom", dk, m)
	ex.logStore(st, mapKey(mt)+".card", ck, m)
	st.heapSet(mapKey(mt)+".card", ck, Store(hc, m, Ite(was, Sub(Select(hc, m), Num(1)), Select(hc, m))))
	st.heapSet(mapKey(mt)+".dom", dk, Store(hd, m, Store(Select(hd, m), key, tFalse)))
}

// IterV is a map iterator: the set of keys already produced and their number.
type IterV struct {
	vis, cnt, order, pos int
	m, dom               *Term
	mt                   *types.Map
}

// ranged is the order in which a completed iteration produced the keys.
type ranged struct {
	order, pos *Term
	key        types.Type
}

func (ex *Exec) rangeInit(st *State, x *ssa.Range) Val {
	f := st.top()
	mt, ok := f.tsub.apply(x.X.Type()).Underlying().(*types.Map)
	if !ok {
		panic(unsupported("range over %s", x.X.Type()))
	}
	ks := ex.ty.scalarSort(mt.Key())
	m := ex.val(st, x.X).(*Term)
	it := &IterV{m: m, mt: mt}
	it.vis = ex.newCell(st, "$visited", &gmap{mt.Key(), types.Typ[types.Bool]}, ConstArr(ks, tFalse))
	it.cnt = ex.newCell(st, "$produced", intT, Num(0))
	it.order = ex.newCell(st, "$order", &gmap{intT, mt.Key()}, Fresh("order", ArraySort(SInt, ks)))
	it.pos = ex.newCell(st, "$pos", &gmap{mt.Key(), intT}, Fresh("pos", ArraySort(ks, SInt)))
	it.dom = Select(ex.heapGet(st, mapKey(mt)+".dom", ArraySort(SRef, ArraySort(ks, SBool))), m)
	f.cells = append(f.cells, it.vis, it.cnt, it.order, it.pos)
	return it
}

func (ex *Exec) next(st *State, x *ssa.Next, k func(*State, Val)) {
	f := st.top()
	if x.IsString {
		panic(unsupported("range over string"))
	}
	it := f.env[x.Iter].(*IterV)
	mt := it.mt
	ex.guardCheckContents(st, mt, it.m, false, x)
	ks := ex.ty.scalarSort(mt.Key())
	hd := Select(ex.heapGet(st, mapKey(mt)+".dom", ArraySort(SRef, ArraySort(ks, SBool))), it.m)
	card := Select(ex.heapGet(st, mapKey(mt)+".card", ArraySort(SRef, SInt)), it.m)
	vis := st.cells[it.vis].(*Term)
	cnt := st.cells[it.cnt].(*Term)
	order := st.cells[it.order].(*Term)
	pos := st.cells[it.pos].(*Term)
	if hd != it.dom {
		ex.check(st, Eq(hd, it.dom), "range", "the map keeps its keys while it is ranged over", ex.posOf(x))
	}
	more := Fresh("more", SBool)
	// trusted iteration semantics: every key once, in any order
	bv := BVar("k", ks)
	st.assume(Forall([]*Term{bv}, Imp(Select(vis, bv), Select(hd, bv)), []*Term{mk("select", SBool, vis, bv)}))
	st.assume(Imp(Eq(it.m, nilRef), Not(more)))
	st.assume(Le(Num(0), cnt))
	pv, oi := BVar("k", ks), BVar("i", SInt)
	st.assume(Forall([]*Term{pv}, Imp(Select(vis, pv), And(Le(Num(0), Select(pos, pv)), Lt(Select(pos, pv), cnt), Eq(Select(order, Select(pos, pv)), pv))), []*Term{mk("select", SBool, vis, pv)}))
	st.assume(Forall([]*Term{oi}, Imp(And(Le(Num(0), oi), Lt(oi, cnt)), And(Select(vis, Select(order, oi)), Eq(Select(pos, Select(order, oi)), oi))), []*Term{mk("select", ks, order, oi)}))
	ex.split(st, more, "range", func(s *State) {
		kt := Fresh("key", ks)
		s.assume(And(Select(hd, kt), Not(Select(vis, kt))))
		s.assume(Lt(cnt, card))
		s.assume(Le(card, NumBig(maxLen)))
		s.cells[it.vis] = Store(vis, kt, tTrue)
		s.cells[it.cnt] = Add(cnt, Num(1))
		s.cells[it.order] = Store(order, cnt, kt)
		s.cells[it.pos] = Store(pos, kt, cnt)
		var ts []*Term
		for _, lf := range ex.ty.leaves(mt.Elem()) {
			h := ex.heapGet(s, mapKey(mt)+".val"+lf.Suf, ArraySort(SRef, ArraySort(ks, lf.Sort)))
			ts = append(ts, Select(Select(h, it.m), kt))
		}
		v := ex.ty.unflat(mt.Elem(), ts)
		ex.typeAssume(s, v, mt.Elem())
		ex.typeAssume(s, kt, mt.Key())
		k(s, &TupleV{[]Val{tTrue, ex.ty.unflat(mt.Key(), []*Term{kt}), ex.resolve(v, mt.Elem())}})
	}, func(s *State) {
		b2 := BVar("k", ks)
		s.assume(Imp(Not(Eq(it.m, nilRef)), And(
			Forall([]*Term{b2}, Imp(Select(hd, b2), Select(vis, b2)), []*Term{mk("select", SBool, hd, b2)}),
			Eq(cnt, card))))
		s.rng = &ranged{order, pos, mt.Key()}
		k(s, &TupleV{[]Val{tFalse, ex.zero(mt.Key()), ex.zero(mt.Elem())}})
	})
}

// ---------- interfaces ----------

var typeIDs = map[string]int64{}

func typeID(t types.Type) *Term { return typeIDOf(t.String()) }

func typeIDOf(k string) *Term {
	lamMu.Lock()
	defer lamMu.Unlock()
	id, ok := typeIDs[k]
	if !ok {
		id = int64(len(typeIDs) + 1)
		typeIDs[k] = id
	}
	return Num(id)
}

func (ex *Exec) boxTerm(v Val, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, tp := types.Unalias(t).(*types.TypeParam); !tp {
			return v.(*Term)
		}
	}
	fl := ex.ty.flatten(v, t)
	nm := "box_" + t.String()
	for _, a := range fl {
		nm += "," + string(a.sort)
	}
	if len(fl) == 0 {
		fl = []*Term{Num(0)}
		nm += ",unit"
	}
	b := UF(nm, SIface, fl...)
	axGenMu.Lock()
	if !hasUFAxiom(nm) {
		var bvs []*Term
		for _, a := range fl {
			bvs = append(bvs, BVar("b", a.sort))
		}
		bt := UF(nm, SIface, bvs...)
		cs := []*Term{Eq(UF("typeof", SInt, bt), typeID(t)), Not(Eq(bt, nilIface))}
		for i := range bvs {
			cs = append(cs, Eq(UF(fmt.Sprintf("unbox%d_%s>%s", i, t.String(), fl[i].sort), fl[i].sort, bt), bvs[i]))
		}
		addUFAxiom(nm, Forall(bvs, And(cs...), []*Term{bt}))
	}
	axGenMu.Unlock()
	return b
}

func (ex *Exec) unbox(b *Term, t types.Type) Val {
	var ts []*Term
	for i, lf := range ex.ty.leaves(t) {
		ts = append(ts, UF(fmt.Sprintf("unbox%d_%s>%s", i, t.String(), lf.Sort), lf.Sort, b))
	}
	return ex.ty.unflat(t, ts)
}

func (ex *Exec) makeIface(st *State, v Val, t types.Type) Val {
	if p, ok := v.(*PtrV); ok && !(p.loc.cell == 0 && len(p.loc.path) == 0 && !p.loc.elem) {
		r := Fresh("iface", SIface)
		st.assume(Not(Eq(r, nilIface)))
		ex.ifaces[r] = ifaceInfo{t, v}
		return r
	}
	if f, ok := v.(*FuncV); ok {
		ex.fnTerms[f.term()] = f
	}
	b := ex.boxTerm(v, t)
	if _, ok := ex.ifaces[b]; !ok {
		ex.ifaces[b] = ifaceInfo{t, v}
	}
	return b
}

func (ex *Exec) typeAssert(st *State, x *ssa.TypeAssert, k func(*State, Val)) {
	f := st.top()
	v := ex.val(st, x.X).(*Term)
	t := f.tsub.apply(x.AssertedType)
	_, isIface := t.Underlying().(*types.Interface)
	if _, tp := types.Unalias(t).(*types.TypeParam); tp {
		isIface = false
	}
	if isIface {
		ok := UF("implements_"+t.String(), SBool, v)
		ok = And(Not(Eq(v, nilIface)), ok)
		if inf, known := ex.ifaces[v]; known {
			ok = Bool(types.Implements(inf.typ, t.Underlying().(*types.Interface)))
		}
		if x.CommaOk {
			k(st, &TupleV{[]Val{Ite(ok, v, nilIface), ok}})
			return
		}
		ex.check(st, ok, "panic-freedom", "interface conversion", ex.posOf(x))
		k(st, v)
		return
	}
	var cond *Term
	var res Val
	if inf, known := ex.ifaces[v]; known {
		cond = Bool(types.Identical(inf.typ, t))
		res = inf.val
		if cond == tFalse {
			res = ex.zero(t)
		}
	} else {
		cond = And(Not(Eq(v, nilIface)), Eq(UF("typeof", SInt, v), typeID(t)))
		res = ex.unbox(v, t)
	}
	if x.CommaOk {
		ex.split(st, cond, "type-assert", func(s *State) {
			ex.typeAssume(s, res, t)
			k(s, &TupleV{[]Val{ex.resolve(res, t), tTrue}})
		}, func(s *State) { k(s, &TupleV{[]Val{ex.zero(t), tFalse}}) })
		return
	}
	ex.check(st, cond, "panic-freedom", "type assertion to "+t.String(), ex.posOf(x))
	ex.typeAssume(st, res, t)
	if st.dead {
		return
	}
	k(st, ex.resolve(res, t))
}

// ---------- strings and bytes ----------

// bytesStr is the string with the slice's current contents.
func (ex *Exec) bytesStr(s *Snap, x *SliceV) *Term {
	hs := ArraySort(SRef, ArraySort(SInt, SInt))
	k := "[]" + typeKey(x.elem) + "#" + string(hs)
	h, ok := s.heap[k]
	if !ok {
		h = ex.heapInit(k, hs)
	}
	return ex.mkStr(Select(h, x.ref), x.off, x.len)
}

func (ex *Exec) mkStr(arr, off, n *Term) *Term {
	if ex.ty.bv {
		panic(unsupported("strings in bit-vector mode"))
	}
	nm := "mkstr"
	axGenMu.Lock()
	if !hasUFAxiom(nm) {
		a, o, l := BVar("a", arr.sort), BVar("o", SInt), BVar("l", SInt)
		t := UF(nm, SStr, a, o, l)
		addUFAxiom(nm, Forall([]*Term{a, o, l}, Imp(Le(Num(0), l), Eq(UF("strlen", SInt, t), l)), []*Term{t}))
		i := BVar("i", SInt)
		at := UF("strat", SInt, t, i)
		addUFAxiom(nm, Forall([]*Term{a, o, l, i}, Imp(And(Le(Num(0), i), Lt(i, l)), Eq(at, Select(a, Add(o, i)))), []*Term{at}))
	}
	axGenMu.Unlock()
	return UF(nm, SStr, arr, off, n)
}

func (ex *Exec) substr(s, lo, hi *Term) *Term {
	nm := "substr"
	axGenMu.Lock()
	if !hasUFAxiom(nm) {
		x, a, b, i := BVar("s", SStr), BVar("a", SInt), BVar("b", SInt), BVar("i", SInt)
		t := UF(nm, SStr, x, a, b)
		in := And(Le(Num(0), a), Le(a, b), Le(b, UF("strlen", SInt, x)))
		addUFAxiom(nm, Forall([]*Term{x, a, b}, Imp(in, Eq(UF("strlen", SInt, t), Sub(b, a))), []*Term{t}))
		at := UF("strat", SInt, t, i)
		addUFAxiom(nm, Forall([]*Term{x, a, b, i}, Imp(And(in, Le(Num(0), i), Lt(i, Sub(b, a))), Eq(at, UF("strat", SInt, x, Add(a, i)))), []*Term{at}))
	}
	axGenMu.Unlock()
	return UF(nm, SStr, s, lo, hi)
}

// strExtInst: two strings of the same length and bytes are equal (via a difference witness).
func strExtInst(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	w := UF("strdiff", SInt, a, b)
	ln := func(x *Term) *Term { return UF("strlen", SInt, x) }
	diff := And(Le(Num(0), w), Lt(w, ln(a)), Not(Eq(UF("strat", SInt, a, w), UF("strat", SInt, b, w))))
	return Or(Eq(a, b), Not(Eq(ln(a), ln(b))), diff)
}

func (ex *Exec) strToSliceVal(st *State, s *Term, el types.Type) *SliceV {
	n := UF("strlen", SInt, s)
	st.assumeOnce(Le(Num(0), n))
	r := ex.newRef(st, "strbytes")
	arr := Fresh("bytes", ArraySort(SInt, SInt))
	bv := BVar("i", SInt)
	addVarAxiom(arr, Forall([]*Term{bv}, Imp(And(Le(Num(0), bv), Lt(bv, n)), Eq(Select(arr, bv), UF("strat", SInt, s, bv))), []*Term{mk("select", SInt, arr, bv)}))
	hs := ArraySort(SRef, ArraySort(SInt, SInt))
	key := "[]" + typeKey(el)
	st.heapSet(key, hs, Store(ex.heapGet(st, key, hs), r, arr))
	st.assume(Eq(ex.mkStr(arr, Num(0), n), s))
	return &SliceV{r, Num(0), n, n, el}
}

func (ex *Exec) strToSlice(st *State, s *Term, el types.Type) Val {
	if w, _, ok := intType(el); !ok || w != 8 {
		panic(unsupported("conversion of string to %s slice", el))
	}
	return ex.strToSliceVal(st, s, el)
}

func (ex *Exec) sliceToStr(st *State, x *SliceV) Val {
	if w, _, ok := intType(x.elem); !ok || w != 8 {
		panic(unsupported("conversion of %s slice to string", x.elem))
	}
	hs := ArraySort(SRef, ArraySort(SInt, SInt))
	h := ex.heapGet(st, "[]"+typeKey(x.elem), hs)
	return ex.mkStr(Select(h, x.ref), x.off, x.len)
}

// ---------- axioms ----------

var axLoadMu, axGenMu sync.Mutex

func (ex *Exec) loadAxioms(c *ectx) {
	// no function's queries are built before every axiom is in place
	axLoadMu.Lock()
	defer axLoadMu.Unlock()
	for i, a := range ex.db.axioms {
		key := fmt.Sprintf("%d/%v", i, ex.ty.bv)
		ex.db.mu.Lock()
		done := ex.db.axDone[key]
		ex.db.axDone[key] = true
		ex.db.mu.Unlock()
		if done {
			continue
		}
		n := &ectx{ex: ex, db: ex.db, pkg: ex.db.axiomPkg[i], vars: map[string]SV{}, tenv: map[string]types.Type{}}
		n.cur = &Snap{map[string]*Term{}, nil, Num(0)}
		n.old = n.cur
		// axiom name[T, R]: for the types functions call T and R
		if k := strings.Index(a.label, "["); k >= 0 {
			for _, tn := range strings.Split(strings.TrimSuffix(a.label[k+1:], "]"), ",") {
				tn = strings.TrimSpace(tn)
				n.tenv[tn] = types.NewTypeParam(types.NewTypeName(token.NoPos, nil, tn, nil), types.NewInterfaceType(nil, nil))
			}
		}
		// an axiom that does not fit (a theory of strings under machine integers, a type that is gone) is left out:
		// fewer axioms never prove more
		var t *Term
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("GOVC_AXIOMS") != "" {
						fmt.Fprintf(os.Stderr, "axiom %s left out: %v\n", a.label, r)
					}
				}
			}()
			t = n.boolean(a.expr)
		}()
		if t == nil {
			continue
		}
		if strings.HasPrefix(a.label, "def-") {
			lemmaMu.Lock()
			defOf[t] = a.label
			lemmaMu.Unlock()
		}
		if len(attachAxiom(t)) == 0 {
			panic(serr("axiom %s mentions no declared function", a.label))
		}
	}
	// lemmas with triggers; each is proved without itself and those after it
	for _, l := range ex.db.lemmas {
		if len(l.lemma.trigger) == 0 || l.bv != ex.ty.bv {
			continue
		}
		ex.db.mu.Lock()
		done := ex.db.axDone[l.pkg+"."+l.key]
		ex.db.axDone[l.pkg+"."+l.key] = true
		ex.db.mu.Unlock()
		if done {
			continue
		}
		n := &ectx{ex: ex, db: ex.db, pkg: l.pkg, vars: map[string]SV{}, tenv: map[string]types.Type{}}
		n.cur = &Snap{map[string]*Term{}, nil, Num(0)}
		n.old = n.cur
		var bvs, pre, post []*Term
		var pats [][]*Term
		for _, m := range l.lemma.vars {
			v, rng := n.lemmaVar(m, BVar)
			bvs = append(bvs, v)
			pre = append(pre, rng...)
		}
		for _, r := range l.requires {
			pre = append(pre, n.boolean(r.expr))
		}
		for _, e := range l.ensures {
			post = append(post, n.boolean(e.expr))
		}
		for _, t := range l.lemma.trigger {
			var p []*Term
			for _, x := range t.(*ast.CallExpr).Args {
				p = append(p, n.term(x))
			}
			pats = append(pats, p)
		}
		t := Forall(bvs, Imp(And(pre...), And(post...)), pats...)
		lemmaMu.Lock()
		lemmaOf[t] = l
		lemmaMu.Unlock()
		if len(attachAxiom(t)) == 0 {
			panic(serr("%s mentions no declared function", l.key))
		}
	}
}

// lemmaVar introduces a variable of a lemma: any mathematical integer for the 64-bit types, as in a quantifier.
func (c *ectx) lemmaVar(m MetaVar, mk func(string, Sort) *Term) (*Term, []*Term) {
	t := c.typ(m.typ)
	ls := c.ex.ty.leaves(t)
	if len(ls) != 1 {
		panic(serr("lemma about a value of composite type %s", t))
	}
	v := mk(m.name, ls[0].Sort)
	c.vars[m.name] = SV{v, t}
	if v.sort == SInt {
		if lo, hi := intRange(t); lo != nil {
			if w, _, _ := intType(t); w < 64 {
				return v, []*Term{Le(NumBig(lo), v), Le(v, NumBig(hi))}
			}
		}
	}
	return v, nil
}

var lemmaMu sync.Mutex

// defOf names the axioms that a contract with a uses clause leaves out unless it lists them.
var defOf = map[*Term]string{}

// lemmaOf gives the lemma an axiom states; lemmaUsed are those that have been part of a query.
var lemmaOf, lemmaUsed = map[*Term]*Contract{}, map[*Contract]bool{}

// attachAxiom makes t part of every query about one of the functions it mentions.
func attachAxiom(t *Term) (ufs []string) {
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if strings.HasPrefix(x.op, "uf:f.") {
			ufs = append(ufs, x.op[3:])
		}
		for _, y := range x.args {
			rec(y)
		}
	}
	rec(t)
	for _, u := range ufs {
		addUFAxiom(u, t)
	}
	return ufs

}
