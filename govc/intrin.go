package main

import (
	"fmt"
	"go/parser"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(ex *Exec, st *State, ins ssa.Instruction, args []Val, fn *ssa.Function, tsub tsubst, k Kont)

var intrinsics map[string]intrinsic

func init() {
	intrinsics = map[string]intrinsic{
		"sync.(*Pool).Get": poolGet,
		"sync.(*Pool).Put": poolPut,
		"sync.(*Mutex).Lock": func(ex *Exec, st *State, ins ssa.Instruction, a []Val, _ *ssa.Function, _ tsubst, k Kont) {
			ex.lock(st, ins, a[0], 2)
			k(st, nil)
		},
		"sync.(*Mutex).Unlock": func(ex *Exec, st *State, ins ssa.Instruction, a []Val, _ *ssa.Function, _ tsubst, k Kont) {
			ex.unlock(st, ins, a[0], 2)
			k(st, nil)
		},
		"sync.(*RWMutex).Lock": func(ex *Exec, st *State, ins ssa.Instruction, a []Val, _ *ssa.Function, _ tsubst, k Kont) {
			ex.lock(st, ins, a[0], 2)
			k(st, nil)
		},
		"sync.(*RWMutex).Unlock": func(ex *Exec, st *State, ins ssa.Instruction, a []Val, _ *ssa.Function, _ tsubst, k Kont) {
			ex.unlock(st, ins, a[0], 2)
			k(st, nil)
		},
		"sync.(*RWMutex).RLock": func(ex *Exec, st *State, ins ssa.Instruction, a []Val, _ *ssa.Function, _ tsubst, k Kont) {
			ex.lock(st, ins, a[0], 1)
			k(st, nil)
		},
		"sync.(*RWMutex).RUnlock": func(ex *Exec, st *State, ins ssa.Instruction, a []Val, _ *ssa.Function, _ tsubst, k Kont) {
			ex.unlock(st, ins, a[0], 1)
			k(st, nil)
		},
		"sync.(*Once).Do": onceDo,
		"runtime.Gosched": func(ex *Exec, st *State, ins ssa.Instruction, a []Val, _ *ssa.Function, _ tsubst, k Kont) { k(st, nil) },
	}
	for _, w := range []string{"Uint64", "Int64", "Uint32", "Int32"} {
		w := w
		t := types.Universe.Lookup(strings.ToLower(w)).Type()
		intrinsics["sync/atomic.Load"+w] = func(ex *Exec, st *State, ins ssa.Instruction, a []Val, _ *ssa.Function, _ tsubst, k Kont) {
			k(st, []Val{ex.load(st, ex.toLoc(a[0], types.NewPointer(t)))})
		}
		intrinsics["sync/atomic.Store"+w] = func(ex *Exec, st *State, ins ssa.Instruction, a []Val, _ *ssa.Function, _ tsubst, k Kont) {
			ex.store(st, ex.toLoc(a[0], types.NewPointer(t)), a[1])
			k(st, nil)
		}
		intrinsics["sync/atomic.Add"+w] = func(ex *Exec, st *State, ins ssa.Instruction, a []Val, _ *ssa.Function, _ tsubst, k Kont) {
			l := ex.toLoc(a[0], types.NewPointer(t))
			v := ex.norm(st, Add(ex.load(st, l).(*Term), a[1].(*Term)), t)
			ex.store(st, l, v)
			k(st, []Val{v})
		}
		intrinsics["sync/atomic.Swap"+w] = func(ex *Exec, st *State, ins ssa.Instruction, a []Val, _ *ssa.Function, _ tsubst, k Kont) {
			l := ex.toLoc(a[0], types.NewPointer(t))
			v := ex.load(st, l)
			ex.store(st, l, a[1])
			k(st, []Val{v})
		}
		intrinsics["sync/atomic.CompareAndSwap"+w] = func(ex *Exec, st *State, ins ssa.Instruction, a []Val, _ *ssa.Function, _ tsubst, k Kont) {
			l := ex.toLoc(a[0], types.NewPointer(t))
			c := Eq(ex.load(st, l).(*Term), a[1].(*Term))
			ex.split(st, c, "cas", func(s *State) {
				ex.store(s, l, a[2])
				k(s, []Val{tTrue})
			}, func(s *State) { k(s, []Val{tFalse}) })
		}
	}
}

// poolInfo is what a scan of the package says about its sync.Pool values.
type poolInfo struct {
	newFn *ssa.Function
	elem  types.Type // dynamic type of everything put
	err   string
}

func (ex *Exec) poolScan(pkg *ssa.Package) *poolInfo {
	pi := &poolInfo{}
	note := func(s string) {
		if pi.err == "" {
			pi.err = s
		}
	}
	var fns []*ssa.Function
	for k, f := range ex.ld.funcs {
		_ = k
		if f.Pkg == pkg || (f.Parent() != nil && f.Parent().Pkg == pkg) {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || typeFullName(fa.X.Type().Underlying().(*types.Pointer).Elem()) != "sync.Pool" {
						continue
					}
					var fn *ssa.Function
					switch v := x.Val.(type) {
					case *ssa.Function:
						fn = v
					case *ssa.MakeClosure:
						fn = v.Fn.(*ssa.Function)
					}
					if fn == nil || len(fn.FreeVars) > 0 {
						note(noNew)
						continue
					}
					if o := fn.Origin(); o != nil {
						fn = o
					}
					if pi.newFn != nil && pi.newFn != fn {
						note("several different New functions for pools in one package")
					}
					pi.newFn = fn
				case *ssa.Call, *ssa.Defer:
					c := x.(ssa.CallInstruction).Common()
					if cf := c.StaticCallee(); cf != nil && funcKey(cf) == "sync.(*Pool).Put" {
						mi, ok := c.Args[1].(*ssa.MakeInterface)
						if !ok {
							note("a value of unknown type is put into a pool")
							continue
						}
						if pi.elem != nil && typeKey(pi.elem) != typeKey(mi.X.Type()) {
							note("values of different types are put into pools of one package")
						}
						pi.elem = mi.X.Type()
					}
				}
			}
		}
	}
	if pi.newFn == nil {
		note(noNew)
	}
	return pi
}

func pkgOf(f *ssa.Function) *ssa.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil && f.Origin() != nil {
		return f.Origin().Pkg
	}
	return f.Pkg
}

// newType is the type of a pool's New.
var newType = plainSig(nil, []types.Type{types.NewInterfaceType(nil, nil)})

func poolKey(ex *Exec, l Loc) (string, *Term) {
	k, _ := ex.locKey(l)
	return "$pool." + k, l.base
}

var poolSort = ArraySort(SRef, ArraySort(SRef, SBool))

func poolGet(ex *Exec, st *State, ins ssa.Instruction, a []Val, fn *ssa.Function, tsub tsubst, k Kont) {
	ex.nilCheck(st, a[0], "sync.Pool", ins)
	l := ex.toLoc(a[0], types.NewPointer(fn.Signature.Recv().Type().(*types.Pointer).Elem()))
	f := st.top()
	pi := ex.poolScan(pkgOf(f.fn))
	key, base := poolKey(ex, l)
	// New must be set
	nl := l
	nl.path = append(nl.path[:len(nl.path):len(nl.path)], PE{field: "New"})
	nl.typ = newType
	nv := ex.load(st, nl)
	nt := ex.ty.flatten(nv, nl.typ)[0]
	newFn, _ := nv.(*FuncV)
	if newFn == nil || newFn.fn == nil {
		newFn = ex.fnTerms[nt]
	}
	if newFn != nil && newFn.fn != nil && len(newFn.fn.FreeVars) == 0 {
		newFn = nil // the scan finds plain functions, and their type parameters
	}
	if pi.err != "" && (newFn == nil || pi.elem == nil) {
		if pi.elem == nil || pi.err != noNew {
			panic(unsupported("sync.Pool: %s", pi.err))
		}
		// a pool set up elsewhere
		ex.use("assumption: a sync.Pool whose New is not known yields a value that nobody else uses, not nil")
		et := f.tsub.apply(substTP(pi.elem, f.fn))
		n := Fresh("pooled", SRef)
		st.assume(Not(Eq(n, nilRef)))
		ex.typeAssume(st, n, et)
		k(st, []Val{ex.makeIface(st, n, et)})
		return
	}
	ex.check(st, Not(Eq(nt, nilFn)), "panic-freedom", "the pool has a New function", ex.posOf(ins))
	if pi.elem != nil {
		s2 := st.clone()
		h := ex.heapGet(s2, key, poolSort)
		et := f.tsub.apply(substTP(pi.elem, f.fn))
		n := Fresh("pooled", SRef)
		s2.assume(Select(Select(h, base), n))
		ex.typeAssume(s2, n, et)
		s2.heapSet(key, poolSort, Store(h, base, Store(Select(h, base), n, tFalse)))
		s2.path = append(s2.path, "pool-hit")
		if ex.feasible(s2, tTrue2(s2)) {
			v := ex.makeIface(s2, n, et)
			k(s2, []Val{v})
		}
	}
	if newFn != nil {
		st.path = append(st.path, "pool-new")
		ex.callFn(st, ins, newFn, nil, k)
		return
	}
	// the type parameters of the New function are those of the current receiver
	ntsub := tsubst{}
	ntp := fnTypeParams(pi.newFn)
	cur := fnTypeParams(f.fn)
	for i, tp := range ntp {
		if i < len(cur) {
			ntsub[tp] = f.tsub.apply(cur[i])
		}
	}
	st.path = append(st.path, "pool-new")
	ex.pushCall(st, pi.newFn, ntsub, nil, nil, k)
}

const noNew = "no plain New function"

func tTrue2(s *State) *Term { return tTrue }

// substTP re-expresses a type written with another method's type parameters in terms of fn's.
func substTP(t types.Type, fn *ssa.Function) types.Type {
	cur := fnTypeParams(fn)
	m := tsubst{}
	var collect func(t types.Type)
	idx := 0
	collect = func(t types.Type) {
		switch u := types.Unalias(t).(type) {
		case *types.TypeParam:
			if _, ok := m[u]; !ok {
				if u.Index() < len(cur) {
					m[u] = cur[u.Index()]
				}
				idx++
			}
		case *types.Pointer:
			collect(u.Elem())
		case *types.Slice:
			collect(u.Elem())
		case *types.Named:
			if u.TypeArgs() != nil {
				for i := 0; i < u.TypeArgs().Len(); i++ {
					collect(u.TypeArgs().At(i))
				}
			}
		}
	}
	collect(t)
	return m.apply(t)
}

func poolPut(ex *Exec, st *State, ins ssa.Instruction, a []Val, fn *ssa.Function, tsub tsubst, k Kont) {
	ex.nilCheck(st, a[0], "sync.Pool", ins)
	l := ex.toLoc(a[0], types.NewPointer(fn.Signature.Recv().Type().(*types.Pointer).Elem()))
	b := a[1].(*Term)
	inf, ok := ex.ifaces[b]
	if !ok {
		panic(unsupported("sync.Pool.Put of an unknown value"))
	}
	n, ok := inf.val.(*Term)
	if !ok || n.sort != SRef {
		panic(unsupported("sync.Pool.Put of a non-pointer"))
	}
	key, base := poolKey(ex, l)
	h := ex.heapGet(st, key, poolSort)
	if pi := ex.poolScan(pkgOf(st.top().fn)); pi.err == "" {
		ex.check(st, Not(Select(Select(h, base), n)), "pool", "a value is not put into a pool twice", ex.posOf(ins))
	}
	ex.logStore(st, key, poolSort, base)
	st.heapSet(key, poolSort, Store(h, base, Store(Select(h, base), n, tTrue)))
	k(st, nil)
}

// ---------- locks ----------

func (ex *Exec) heldKey(l Loc) (string, *Term) {
	k, _ := ex.locKey(l)
	return "$held." + k, l.base
}

var heldSort = ArraySort(SRef, SInt)

func (ex *Exec) heldGet(st *State, key string) *Term {
	k := key + "#" + string(heldSort)
	if t, ok := st.heap[k]; ok {
		return t
	}
	t := ConstArr(SRef, Num(0))
	ex.mu.Lock()
	ex.initHeap[k] = t
	ex.mu.Unlock()
	return t
}

// global is the name of the package-level variable that is the lock, or "".
func (g *Guard) global() string {
	if strings.Contains(g.lock, ".") {
		return ""
	}
	return "G:" + modPath + "/" + g.pkg + "." + g.lock
}

func (ex *Exec) guardFor(l Loc) *Guard {
	if len(l.path) == 0 {
		for _, g := range ex.db.guards {
			if n := g.global(); n != "" && n == l.root {
				return g
			}
		}
		return nil
	}
	for _, g := range ex.db.guards {
		if g.global() != "" {
			continue
		}
		p := strings.SplitN(g.lock, ".", 2)
		if l.root == lastTwo(g.pkg)+"."+p[0] && l.path[0].field == p[1] {
			return g
		}
	}
	return nil
}

func (ex *Exec) lock(st *State, ins ssa.Instruction, p Val, lvl int64) {
	ex.nilCheck(st, p, "mutex", ins)
	l, ok := p.(*PtrV)
	var loc Loc
	if ok {
		loc = l.loc
	} else {
		loc = Loc{base: p.(*Term), root: "sync.Mutex"}
	}
	if loc.cell > 0 {
		panic(unsupported("lock in a local variable"))
	}
	key, base := ex.heldKey(loc)
	h := ex.heldGet(st, key)
	ex.check(st, Eq(Select(h, base), Num(0)), "lock", "the lock is not already held by this goroutine", ex.posOf(ins))
	st.heapSet(key, heldSort, Store(h, base, Num(lvl)))
	ex.lockBases[key] = append(ex.lockBases[key], base)
	g := ex.guardFor(loc)
	if g == nil {
		return
	}
	ex.followups(st, ex.posOf(ins))
	if st.nacq > 0 && st.acq != nil && len(ex.con.sections) == 0 {
		// the operation takes effect in its last critical section only
		for _, mk := range sortedModKeys(ex.guarded) {
			hk := mk.key + "#" + string(mk.sort)
			was, is := st.acq.heap[hk], st.heap[hk]
			if was == nil || is == nil || was == is {
				continue
			}
			r := Fresh("gr", SRef)
			ex.check(st, Eq(Select(is, r), Select(was, r)), "lock", "only the last critical section changes the state guarded by "+g.lock, ex.posOf(ins))
		}
	}
	// another goroutine may have changed the guarded state
	ex.guardedOps(st, g, loc, func(k modKey, r *Term) {
		_, vs := splitArray(k.sort)
		h := ex.heapGet(st, k.key, k.sort)
		if r == nil {
			nv := Fresh("acq", k.sort)
			st.assume(Eq(Select(nv, nilRef), Select(h, nilRef)))
			if vs == SInt && sizeKey(k.key) {
				rv := BVar("r", SRef)
				st.assume(Forall([]*Term{rv}, And(Le(Num(0), Select(nv, rv)), Le(Select(nv, rv), NumBig(maxLen)))))
			}
			st.heapSet(k.key, k.sort, nv)
			ex.guarded[k] = true
			return
		}
		nv := Fresh("acq", vs)
		if vs == SRef {
			st.assume(Lt(birth(nv), st.now))
		}
		if vs == SInt && sizeKey(k.key) {
			st.assume(Le(Num(0), nv))
			st.assume(Le(nv, NumBig(maxLen)))
		}
		ex.elemRefAxiom(nv, vs, st.now)
		st.heapSet(k.key, k.sort, Store(h, r, nv))
		ex.guarded[k] = true
	})
	st.nacq++
	if g.inv != nil {
		specTry("lock invariant of "+g.lock, func() { st.assume(ex.lockInv(st, g, base, loc)) })
	}
	st.acq = st.snap()
	for _, r := range ex.con.rely {
		r := r
		specTry("rely "+r.src, func() { st.assume(ex.loopCtx(st, nil, nil).boolean(r.expr)) })
		ex.use("assumption on taking the lock: " + r.src)
	}
}

// sizeKey: a length, capacity, offset or cardinality
func sizeKey(k string) bool {
	for _, s := range []string{".$len", ".$cap", ".$off", ".card"} {
		if strings.HasSuffix(k, s) {
			return true
		}
	}
	return false
}

func (ex *Exec) lockInv(st *State, g *Guard, base *Term, loc Loc) *Term {
	c := *ex.baseCtx
	c.pkg = g.pkg
	c.vars = map[string]SV{}
	if g.global() == "" {
		tn := strings.SplitN(g.lock, ".", 2)[0]
		o := ex.ld.tpkg(g.pkg).Scope().Lookup(tn).Type()
		c.vars[g.inv.params[0]] = SV{base, types.NewPointer(c.inst(o))}
	}
	c.cur = st.snap()
	c.old = ex.entry
	return c.boolean(g.inv.body)
}

// guardedOps applies f to every heap cell the lock protects.
func (ex *Exec) guardedOps(st *State, g *Guard, loc Loc, f func(k modKey, r *Term)) {
	specTry("guard "+g.lock, func() {
		c := *ex.baseCtx
		c.pkg = g.pkg
		var o types.Type
		if g.global() == "" {
			tn := strings.SplitN(g.lock, ".", 2)[0]
			o = c.inst(ex.ld.tpkg(g.pkg).Scope().Lookup(tn).Type())
		}
		for _, s := range g.state {
			inner := ""
			item := s
			if i := strings.Index(s, "("); i > 0 {
				inner = s[:i]
				item = strings.TrimSuffix(s[i+1:], ")")
			}
			if inner == "all" { // every map of this type
				e, err := parser.ParseExpr(item)
				if err != nil {
					panic(serr("guard: %v", err))
				}
				mt, ok := c.typ(e).Underlying().(*types.Map)
				if !ok {
					panic(serr("guard: %s is not a map type", item))
				}
				for _, k := range ex.mapKeys(mt) {
					f(k, nil)
				}
				continue
			}
			var l Loc
			var ft types.Type
			if g.global() != "" {
				var ok bool
				if l, ok = c.globalLoc("", item); !ok {
					panic(serr("no variable %s", item))
				}
				ft = l.typ
			} else {
				fld := strings.SplitN(item, ".", 2)[1]
				ft = c.fieldType(o, fld)
				if ft == nil {
					panic(serr("no field %s", item))
				}
				l = Loc{base: loc.base, root: loc.root, path: []PE{{field: fld}}, typ: ft}
			}
			switch inner {
			case "":
				for _, k := range ex.locKeys(l) {
					f(k, l.base)
				}
				ex.typeAssume(st, ex.load2(st, l), ft)
			case "contents":
				m := ex.load2(st, l).(*Term)
				for _, k := range ex.mapKeys(ft.Underlying().(*types.Map)) {
					f(k, m)
				}
			case "elems":
				sv := ex.load2(st, l).(*SliceV)
				for _, lf := range ex.ty.leaves(sv.elem) {
					f(modKey{"[]" + typeKey(sv.elem) + lf.Suf, ArraySort(SRef, ArraySort(ex.ty.idxSort(), lf.Sort))}, sv.ref)
				}
			}
		}
	})
}

func (ex *Exec) load2(st *State, l Loc) Val {
	q := ex.quietGuard
	ex.quietGuard = true
	defer func() { ex.quietGuard = q }()
	return ex.load(st, l)
}

func (ex *Exec) unlock(st *State, ins ssa.Instruction, p Val, lvl int64) {
	ex.nilCheck(st, p, "mutex", ins)
	var loc Loc
	if l, ok := p.(*PtrV); ok {
		loc = l.loc
	} else {
		loc = Loc{base: p.(*Term), root: "sync.Mutex"}
	}
	key, base := ex.heldKey(loc)
	h := ex.heldGet(st, key)
	ex.check(st, Eq(Select(h, base), Num(lvl)), "lock", "the lock is held in the matching mode when released", ex.posOf(ins))
	g := ex.guardFor(loc)
	if g != nil && g.inv != nil {
		specTry("lock invariant of "+g.lock, func() {
			ex.check(st, ex.lockInv(st, g, base, loc), "lock", "the lock invariant holds at release: "+g.inv.src, ex.posOf(ins))
		})
	}
	if g != nil {
		for _, c := range ex.con.sections {
			c := c
			specTry("section "+c.src, func() {
				ex.check(st, ex.loopCtx(st, nil, nil).boolean(c.expr), "section", "what one critical section does: "+c.src, ex.posOf(ins))
			})
		}
		for i, c := range ex.con.tally {
			c, tk := c, fmt.Sprintf("$tally%d", i)
			specTry("tally "+c.src, func() {
				st.heapSet(tk, SInt, Add(ex.heapGet(st, tk, SInt), ex.loopCtx(st, nil, nil).term(c.expr)))
			})
		}
	}
	st.rel = st.snap()
	st.heapSet(key, heldSort, Store(h, base, Num(0)))
}

// followups: what must have happened by the time the next critical section begins or the goroutine goes on to its next round.
func (ex *Exec) followups(st *State, pos string) {
	if st.acq == nil || st.rel == nil {
		return
	}
	for _, c := range ex.con.follow {
		c := c
		specTry("after "+c.src, func() {
			ex.check(st, ex.loopCtx(st, nil, nil).boolean(c.expr), "section", "what follows a critical section: "+c.src, pos)
		})
	}
}

func (ex *Exec) checkLocks(s *State, pos string) {
	for _, k := range sortedKeys(s.heap) {
		if !strings.HasPrefix(k, "$held.") || ex.onceKeys[k[:strings.LastIndex(k, "#")]] {
			continue
		}
		r := Fresh("lk", SRef)
		ex.check(s, Eq(Select(s.heap[k], r), Num(0)), "lock", "every lock taken is released on return", pos)
	}
}

// guardCheck: guarded fields are only touched while the lock is held.
func (ex *Exec) guardCheck(st *State, l Loc, write bool) {
	if ex.quietGuard || st.mode != ModeCheck || l.cell > 0 || len(l.path) == 0 || len(ex.db.guards) == 0 {
		return
	}
	for _, g := range ex.db.guards {
		if g.global() != "" {
			continue
		}
		p := strings.SplitN(g.lock, ".", 2)
		if l.root != lastTwo(g.pkg)+"."+p[0] {
			continue
		}
		for _, s := range g.state {
			if s != p[0]+"."+l.path[0].field {
				continue
			}
			ex.requireHeld(st, "$held."+l.root+"."+p[1], l.base, write, "access to "+s+" without holding "+g.lock, Le(ex.entry.now, birth(l.base)))
		}
	}
}

func (ex *Exec) requireHeld(st *State, key string, base *Term, write bool, what string, alt *Term) {
	h := Select(ex.heldGet(st, key), base)
	need := Le(Num(1), h)
	if write {
		need = Eq(h, Num(2))
	}
	ex.check(st, Or(need, alt), "lock", what, "")
}

func (ex *Exec) guardCheckContents(st *State, mt *types.Map, m *Term, write bool, ins ssa.Instruction) {
	if ex.quietGuard || st.mode != ModeCheck || len(ex.db.guards) == 0 {
		return
	}
	f := st.top()
	for _, g := range ex.db.guards {
		if f.fn.Pkg == nil && f.fn.Parent() == nil || !ex.inPkg(f.fn, g.pkg) {
			continue
		}
		key := "$held." + g.global()
		if key == "$held." {
			p := strings.SplitN(g.lock, ".", 2)
			key = "$held." + lastTwo(g.pkg) + "." + p[0] + "." + p[1]
		}
		for _, s := range g.state {
			if !strings.HasPrefix(s, "contents(") {
				continue
			}
			var alts []*Term
			for _, b := range ex.lockBases[key] {
				h := Select(ex.heldGet(st, key), b)
				if write {
					alts = append(alts, Eq(h, Num(2)))
				} else {
					alts = append(alts, Le(Num(1), h))
				}
			}
			alts = append(alts, Le(ex.entry.now, birth(m)))
			ex.check(st, Or(alts...), "lock", "map contents of "+s+" touched without the lock", ex.posOf(ins))
		}
	}
}

func (ex *Exec) inPkg(f *ssa.Function, rel string) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.Pkg != nil && relPkg(f.Pkg.Pkg.Path()) == rel
}

// ---------- sync.Once ----------

func onceDo(ex *Exec, st *State, ins ssa.Instruction, a []Val, fn *ssa.Function, tsub tsubst, k Kont) {
	l := ex.toLoc(a[0], types.NewPointer(fn.Signature.Recv().Type().(*types.Pointer).Elem()))
	// what a Once guards may be written inside Do and read from then on
	key, base := ex.heldKey(l)
	guarded := ex.guardFor(l) != nil
	if guarded {
		ex.onceKeys[key] = true
		after := k
		k = func(s *State, r []Val) {
			s.heapSet(key, heldSort, Store(ex.heldGet(s, key), base, Num(1)))
			after(s, r)
		}
	}
	l.path = append(l.path[:len(l.path):len(l.path)], PE{field: "$done"})
	l.typ = types.Typ[types.Bool]
	done := ex.load(st, l).(*Term)
	fv := a[1].(*FuncV)
	ex.split(st, done, "once-done", func(s *State) { k(s, nil) }, func(s *State) {
		ex.store(s, l, tTrue)
		if guarded {
			s.heapSet(key, heldSort, Store(ex.heldGet(s, key), base, Num(2)))
		}
		if fv.fn == nil {
			ex.check(s, Not(Eq(fv.term(), nilFn)), "panic-freedom", "call of nil function", ex.posOf(ins))
			ex.unknownCall(s, fv.term(), types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, ins, func(t *State, _ []Val) { k(t, nil) })
			return
		}
		ex.callFn(s, ins, fv, nil, func(t *State, _ []Val) { k(t, nil) })
	})
}

// ---------- goroutines and channels ----------

// Starting a goroutine, sending, receiving and closing are events of this goroutine's history, like calls of unknown
// functions. What a receive yields, and which case of a select goes ahead, is arbitrary. Whether a channel is closed is
// part of the state; closing or sending on a closed one, and waiting on a nil one for ever, are errors.

var closedSort = ArraySort(SRef, SBool)
var chancapSort = ArraySort(SRef, SInt)

func chanFn(op string, r *Term) *Term { return UF("chan_"+op, SFn, r) }
func goFn(name string) *Term          { return Var("go:"+name, SFn) }

// fnKind says what sort of callable a term is: kinds have no callable in common, and one channel's
// operations are not another's.
func fnKind(f *Term) *Term {
	k := func(n int64) *Term { return Eq(UF("ev.kind", SInt, f), Num(n)) }
	switch {
	case strings.HasPrefix(f.op, "uf:chan_"):
		n := map[string]int64{"uf:chan_send": 1, "uf:chan_recv": 2, "uf:chan_close": 3}[f.op]
		return And(k(n), Eq(UF("ev.chan", SRef, f), f.args[0]))
	case f.op == "var" && strings.HasPrefix(f.name, "go:"):
		return And(k(4), Eq(UF("fnid", SInt, f), typeIDOf(f.name)))
	case strings.HasPrefix(f.op, "uf:f.") || f.op == "var" && strings.HasPrefix(f.name, "f."):
		return k(5)
	case f.op == "var" || strings.HasPrefix(f.op, "uf:") || f.op == "select":
		return k(0)
	}
	return nil
}

func plainSig(ps, rs []types.Type) *types.Signature {
	mk := func(ts []types.Type) *types.Tuple {
		var vs []*types.Var
		for _, t := range ts {
			vs = append(vs, types.NewVar(0, nil, "", t))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, mk(ps), mk(rs), false)
}

func (ex *Exec) event(st *State, f *Term, sig *types.Signature, args []Val, ins ssa.Instruction) (rets []Val) {
	q := ex.noPanicPath
	ex.noPanicPath = true
	defer func() { ex.noPanicPath = q }()
	if k := fnKind(f); k != nil {
		st.assumeOnce(k)
	}
	ex.callTracked(st, f, sig, args, ins, func(_ *State, r []Val) { rets = r })
	return
}

func goName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.Name()
}

func (ex *Exec) goStmt(st *State, x *ssa.Go) {
	f := st.top()
	c := x.Common()
	if c.IsInvoke() {
		panic(unsupported("go statement with an interface method"))
	}
	fv, args := ex.evalCall(st, c)
	v, ok := fv.(*FuncV)
	if !ok {
		panic(unsupported("go statement with a builtin"))
	}
	sig := f.tsub.apply(c.Signature()).(*types.Signature)
	if v.fn == nil {
		ex.check(st, Not(Eq(v.term(), nilFn)), "panic-freedom", "call of nil function", ex.posOf(x))
		ex.event(st, UF("go_value", SFn, v.term()), sig, args, x)
		return
	}
	// what the goroutine shares with this one it may not assign
	for _, b := range v.fn.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok {
				if _, fr := s.Addr.(*ssa.FreeVar); fr {
					panic(unsupported("a goroutine assigns a captured variable"))
				}
			}
		}
	}
	if v.bound != nil {
		args = append([]Val{v.bound}, args...)
		sig = plainSig(append([]types.Type{v.fn.Signature.Recv().Type()}, tupleTypes(sig.Params())...), nil)
	} else if r := v.fn.Signature.Recv(); r != nil {
		sig = plainSig(append([]types.Type{f.tsub.apply(r.Type())}, tupleTypes(sig.Params())...), nil)
	}
	if con := ex.db.contracts[funcKey(originOf(v.fn))]; con != nil && st.mode == ModeCheck {
		ex.use("contract " + con.key)
		ex.started(st, con, v, args, x)
	} else if con == nil {
		st.spawned = append(st.spawned, spawn{v, args})
	}
	ex.event(st, goFn(goName(v.fn)), sig, args, x)
}

// started checks what a function that runs in a goroutine of its own requires.
func (ex *Exec) started(st *State, con *Contract, v *FuncV, args []Val, ins ssa.Instruction) {
	specTry("contract of "+con.key+" at "+ex.posOf(ins), func() {
		c := ex.newCtx(con, v.fn, v.fn.Signature, v.tsub, args)
		s := st.snap()
		c.cur, c.old = s, s
		ex.loadAxioms(c)
		for _, r := range con.requires {
			ex.check(st, c.boolean(r.expr), "precondition", "started goroutine "+shortKey(con.key)+": "+r.src, ex.posOf(ins))
		}
	})
}

func tupleTypes(t *types.Tuple) (out []types.Type) {
	for i := 0; i < t.Len(); i++ {
		out = append(out, t.At(i).Type())
	}
	return
}

func originOf(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

func (ex *Exec) selectStmt(st *State, x *ssa.Select, k func(*State, Val)) {
	f := st.top()
	var recvT []types.Type
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			recvT = append(recvT, f.tsub.apply(s.Chan.Type()).Underlying().(*types.Chan).Elem())
		}
	}
	type cs struct {
		ch, v Val
	}
	var vals []cs
	for _, s := range x.States {
		c := cs{ch: ex.val(st, s.Chan)}
		if s.Send != nil {
			c.v = ex.val(st, s.Send)
		}
		vals = append(vals, c)
	}
	zeros := func() []Val {
		var zs []Val
		for _, t := range recvT {
			zs = append(zs, ex.zero(t))
		}
		return zs
	}
	ri := 0
	for i, s := range x.States {
		s2 := st.clone()
		s2.path = append(s2.path, fmt.Sprintf("select-%d", i))
		ch := vals[i].ch.(*Term)
		s2.assume(Not(Eq(ch, nilRef)))
		ok := tFalse
		zs := zeros()
		if s.Dir == types.RecvOnly {
			var v Val
			v, ok = ex.recvOn(s2, ch, recvT[ri], x)
			zs[ri] = v
			ri++
		} else {
			ex.sendOn(s2, ch, vals[i].v, f.tsub.apply(s.Chan.Type()).Underlying().(*types.Chan).Elem(), x)
		}
		if ex.feasible(s2, tTrue) {
			k(s2, &TupleV{append([]Val{ex.idx(int64(i)), ok}, zs...)})
		}
	}
	if !x.Blocking {
		s2 := st.clone()
		s2.path = append(s2.path, "select-default")
		k(s2, &TupleV{append([]Val{ex.idx(-1), tFalse}, zeros()...)})
	}
}

func (ex *Exec) sendOn(st *State, ch *Term, v Val, t types.Type, ins ssa.Instruction) {
	ex.check(st, Not(Select(ex.heapGet(st, "$chan.closed", closedSort), ch)), "panic-freedom", "send on a closed channel", ex.posOf(ins))
	ex.event(st, chanFn("send", ch), plainSig([]types.Type{t}, nil), []Val{v}, ins)
}

func (ex *Exec) recvOn(st *State, ch *Term, t types.Type, ins ssa.Instruction) (Val, *Term) {
	rets := ex.event(st, chanFn("recv", ch), plainSig(nil, []types.Type{t, types.Typ[types.Bool]}), nil, ins)
	ok := rets[1].(*Term)
	z := ex.ty.flatten(ex.zero(t), t)
	for i, x := range ex.ty.flatten(rets[0], t) {
		st.assume(Or(ok, Eq(x, z[i])))
	}
	return rets[0], ok
}

func (ex *Exec) send(st *State, x *ssa.Send) {
	ch := ex.val(st, x.Chan).(*Term)
	ex.check(st, Not(Eq(ch, nilRef)), "panic-freedom", "a send to a nil channel waits for ever", ex.posOf(x))
	ex.sendOn(st, ch, ex.val(st, x.X), st.top().tsub.apply(x.Chan.Type()).Underlying().(*types.Chan).Elem(), x)
}

func (ex *Exec) recv(st *State, x *ssa.UnOp, k func(*State, Val)) {
	ch := ex.val(st, x.X).(*Term)
	ex.check(st, Not(Eq(ch, nilRef)), "panic-freedom", "a receive from a nil channel waits for ever", ex.posOf(x))
	v, ok := ex.recvOn(st, ch, st.top().tsub.apply(x.X.Type()).Underlying().(*types.Chan).Elem(), x)
	if x.CommaOk {
		k(st, &TupleV{[]Val{v, ok}})
		return
	}
	k(st, v)
}

func (ex *Exec) chanInit(st *State, r, size *Term) {
	st.heapSet("$chan.closed", closedSort, Store(ex.heapGet(st, "$chan.closed", closedSort), r, tFalse))
	st.heapSet("$chan.cap", chancapSort, Store(ex.heapGet(st, "$chan.cap", chancapSort), r, size))
}

func (ex *Exec) chanClose(st *State, ch *Term, ins ssa.Instruction) {
	ex.check(st, Not(Eq(ch, nilRef)), "panic-freedom", "close of a nil channel", ex.posOf(ins))
	h := ex.heapGet(st, "$chan.closed", closedSort)
	ex.check(st, Not(Select(h, ch)), "panic-freedom", "close of a closed channel", ex.posOf(ins))
	ex.logStore(st, "$chan.closed", closedSort, ch)
	st.heapSet("$chan.closed", closedSort, Store(h, ch, tTrue))
	ex.event(st, chanFn("close", ch), plainSig(nil, nil), nil, ins)
}

func sortedModKeys(m map[modKey]bool) []modKey {
	var ks []modKey
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].key+"#"+string(ks[i].sort) < ks[j].key+"#"+string(ks[j].sort) })
	return ks
}
