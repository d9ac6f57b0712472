package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Mode int

const (
	ModeCheck Mode = iota
	ModeInfer
	ModeDry
)

type FuncV struct {
	fn    *ssa.Function
	tsub  tsubst
	free  []Val
	t     *Term
	sig   *types.Signature
	bound Val // bound-method receiver
}

func (f *FuncV) term() *Term {
	if f.t == nil {
		if len(f.free) == 0 && f.fn != nil {
			f.t = Var("fn:"+f.fn.RelString(nil), SFn)
			addVarAxiom(f.t, And(Not(Eq(f.t, Var("fn_nil", SFn))), Eq(UF("fnid", SInt, f.t), typeIDOf("fn "+f.fn.RelString(nil)))))
		} else {
			f.t = Fresh("closure", SFn)
			addVarAxiom(f.t, Not(Eq(f.t, Var("fn_nil", SFn))))
		}
	}
	return f.t
}

type Kont func(st *State, rets []Val)

type deferred struct {
	call *ssa.CallCommon
	fv   Val
	args []Val
	ins  ssa.Instruction
}

type activeLoop struct {
	header     *ssa.BasicBlock
	blocks     map[*ssa.BasicBlock]bool
	hook       func(st *State)
	stopAtExit bool
}

type Frame struct {
	fn     *ssa.Function
	tsub   tsubst
	env    map[ssa.Value]Val
	defers []deferred
	loops  []*activeLoop
	cells  []int
	free   []Val
	k      Kont
	depth  int
}

type cellInfo struct {
	name string
	typ  types.Type
}

type Snap struct {
	heap  map[string]*Term
	cells map[int]Val
	now   *Term
}

type State struct {
	pc        []*Term
	cells     map[int]Val
	heap      map[string]*Term
	frames    []*Frame
	now       *Term
	mode      Mode
	acq       *Snap
	rel       *Snap
	nacq      int
	rng       *ranged // the last completed range over a map
	spawned   []spawn // goroutines started
	panicking bool
	path      []string
	preHdr    *Snap // innermost loop entry state
	dead      bool
}

type spawn struct {
	fn   *FuncV
	args []Val
}

func (st *State) snap() *Snap {
	h := map[string]*Term{}
	for k, v := range st.heap {
		h[k] = v
	}
	c := map[int]Val{}
	for k, v := range st.cells {
		c[k] = v
	}
	return &Snap{h, c, st.now}
}

func (st *State) clone() *State {
	n := *st
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.cells = make(map[int]Val, len(st.cells))
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		g.loops = f.loops[:len(f.loops):len(f.loops)]
		g.cells = f.cells[:len(f.cells):len(f.cells)]
		n.frames[i] = &g
	}
	n.path = st.path[:len(st.path):len(st.path)]
	n.spawned = st.spawned[:len(st.spawned):len(st.spawned)]
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(t *Term) {
	if t == tTrue {
		return
	}
	if t == tFalse {
		st.dead = true
	}
	if t.op == "and" {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	st.pc = append(st.pc, strengthen(t))
}

// VC is one verification condition: a path instance of a named obligation.
type VC struct {
	Func    string  `json:"func"`
	Kind    string  `json:"kind"`
	Label   string  `json:"label"`
	Pos     string  `json:"pos"`
	Verdict string  `json:"verdict"`
	Backend string  `json:"backend"`
	Sec     float64 `json:"sec"`
	Path    string  `json:"path,omitempty"`
	Model   string  `json:"model,omitempty"`
	Query   string  `json:"-"`
}

type Exec struct {
	ld          *Loader
	ty          *typer
	con         *Contract
	db          *SpecDB
	name        string
	fset        *token.FileSet
	cellSeq     int
	cinfo       map[int]cellInfo
	initHeap    map[string]*Term
	fnTerms     map[*Term]*FuncV
	ifaces      map[*Term]ifaceInfo
	entry       *Snap
	params      map[string]SV
	wg          sync.WaitGroup
	mu          sync.Mutex
	vcs         []*VC
	used        map[string]bool // contracts, intrinsics and inlined functions used
	inlined     map[string]bool
	onPanic     func(st *State)
	inferLevel  int
	loopMemo    map[string]map[string]bool
	dryLog      []dryStore
	pureFns     map[*Term]bool
	globals     map[string]*globalInfo
	baseCtx     *ectx
	freeCells   []freeCell
	quietGuard  bool
	lockBases   map[string][]*Term
	facts       []*Term
	factSeen    map[*Term]bool
	guarded     map[modKey]bool
	noPanicPath bool
	onceKeys    map[string]bool
	steps       int
	exits       int
	specSub     map[string]types.Type
	noOverflowQ bool
	heapTypes   map[string]Leaf
	loopCount   int
	callDepth   int
}

type ifaceInfo struct {
	typ types.Type
	val Val
}

func (ex *Exec) nilRef() *Term { return nilRef }

var nilRef = func() *Term {
	t := Var("nil", SRef)
	addVarAxiom(t, Eq(UF("birth", SInt, t), Num(-1)))
	return t
}()
var nilIface = Var("nil_iface", SIface)
var nilFn = Var("fn_nil", SFn)

func birth(r *Term) *Term { return UF("birth", SInt, r) }

// ---------- heap ----------

func (ex *Exec) heapGet(st *State, key string, s Sort) *Term {
	k := key + "#" + string(s)
	if t, ok := st.heap[k]; ok {
		return t
	}
	return ex.heapInit(k, s)
}

func (ex *Exec) heapInit(k string, s Sort) *Term {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if t, ok := ex.initHeap[k]; ok {
		return t
	}
	t := Var("H0:"+k, s)
	ex.heapAxioms(t, s, Num(0))
	ex.initHeap[k] = t
	return t
}

// heapAxioms: references stored in the heap were allocated before `now`.
func (ex *Exec) heapAxioms(t *Term, s Sort, now *Term) {
	// Array Ref Ref ; Array Ref (Array Int Ref)
	if !strings.HasPrefix(string(s), "(Array Ref ") {
		return
	}
	_, v := splitArray(s)
	r := BVar("r", SRef)
	sel := mk("select", v, t, r)
	if v == SRef {
		addVarAxiom(t, Forall([]*Term{r}, Lt(birth(sel), now), []*Term{sel}))
		return
	}
	if strings.HasPrefix(string(v), "(Array ") {
		k2, v2 := splitArray(v)
		if v2 == SRef {
			i := BVar("i", k2)
			s2 := mk("select", v2, sel, i)
			addVarAxiom(t, Forall([]*Term{r, i}, Lt(birth(s2), now), []*Term{s2}))
		}
	}
}

func (st *State) heapSet(key string, s Sort, v *Term) {
	st.heap[key+"#"+string(s)] = v
}

func (ex *Exec) locKey(l Loc) (key string, idx *Term) {
	key = l.root
	for _, p := range l.path {
		if p.idx != nil {
			if idx != nil || l.elem {
				panic(unsupported("nested array location %s", l.root))
			}
			idx = p.idx
			key += "[]"
		} else {
			key += "." + p.field
		}
	}
	return
}

func (ex *Exec) load(st *State, l Loc) Val {
	if l.cell > 0 {
		v := st.cells[l.cell]
		if v == nil {
			panic(unsupported("load from unknown cell"))
		}
		t := ex.cinfo[l.cell].typ
		for _, p := range l.path {
			v, t = ex.project(v, t, p)
		}
		return v
	}
	if v, ok := ex.globalConst(l); ok {
		return ex.resolve(v, l.typ)
	}
	key, idx := ex.locKey(l)
	ls := ex.ty.leaves(l.typ)
	var ts []*Term
	for _, lf := range ls {
		s := lf.Sort
		if idx != nil || l.elem {
			s = ArraySort(ex.ty.idxSort(), s)
		}
		h := ex.heapGet(st, key+lf.Suf, ArraySort(SRef, s))
		v := Select(h, l.base)
		if l.elem {
			v = Select(v, l.idx)
		} else if idx != nil {
			v = Select(v, idx)
		}
		ts = append(ts, v)
	}
	v := ex.ty.unflat(l.typ, ts)
	ex.typeAssume(st, v, l.typ)
	return ex.resolve(v, l.typ)
}

// resolve maps function terms back to known closures.
func (ex *Exec) resolve(v Val, t types.Type) Val {
	if tm, ok := v.(*Term); ok && tm.sort == SFn {
		if f, ok := ex.fnTerms[tm]; ok {
			return f
		}
		if sg, ok := t.Underlying().(*types.Signature); ok {
			return &FuncV{t: tm, sig: sg}
		}
	}
	return v
}

// typeAssume adds the facts every value of the Go type satisfies.
func (ex *Exec) typeAssume(st *State, v Val, t types.Type) {
	switch x := v.(type) {
	case *Term:
		if x.op == "num" || x.op == "bv" {
			return
		}
		if x.sort == SRef {
			if x != nilRef {
				st.assumeOnce(Lt(birth(x), st.now))
			}
			return
		}
		if x.sort == SInt {
			lo, hi := intRange(t)
			if lo != nil {
				st.assumeOnce(Le(NumBig(lo), x))
				st.assumeOnce(Le(x, NumBig(hi)))
			}
		}
		if x.sort == SFn {
			// a function value is none of the operations on channels, goroutine starts or specification-only callables
			if k := fnKind(x); k != nil {
				st.assumeOnce(k)
			}
		}
		if x.sort == SStr {
			st.assumeOnce(Le(Num(0), UF("strlen", SInt, x)))
		}
	case *SliceV:
		z := ex.idx(0)
		mx := ex.idxBig(maxLen)
		le := ex.sle
		st.assumeOnce(And(le(z, x.off), le(z, x.len), le(x.len, x.cap), le(x.cap, mx), le(x.off, mx)))
		st.assumeOnce(Imp(Eq(x.ref, nilRef), And(Eq(x.cap, z), Eq(x.off, z))))
		if x.ref != nilRef {
			st.assumeOnce(Lt(birth(x.ref), st.now))
		}
	case *StructV:
		fs := structFields(x.typ)
		for i, f := range x.f {
			ex.typeAssume(st, f, fs[i].t)
		}
	}
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 60)

func (st *State) assumeOnce(t *Term) {
	if t == tTrue {
		return
	}
	n := len(st.pc)
	lo := n - 60
	if lo < 0 {
		lo = 0
	}
	for i := n - 1; i >= lo; i-- {
		if st.pc[i] == t {
			return
		}
	}
	st.assume(t)
}

func (ex *Exec) idx(n int64) *Term { return ex.idxBig(big.NewInt(n)) }
func (ex *Exec) idxBig(n *big.Int) *Term {
	if ex.ty.bv {
		return BV(n, 64)
	}
	return NumBig(n)
}
func (ex *Exec) sle(a, b *Term) *Term {
	if isBV(a.sort) {
		return mk("bvsle", SBool, a, b)
	}
	return Le(a, b)
}
func (ex *Exec) slt(a, b *Term) *Term {
	if isBV(a.sort) {
		return mk("bvslt", SBool, a, b)
	}
	return Lt(a, b)
}
func (ex *Exec) iadd(a, b *Term) *Term {
	if isBV(a.sort) {
		if a.op == "bv" && b.op == "bv" {
			return BV(new(big.Int).Add(a.num, b.num), bvWidth(a.sort))
		}
		if b.op == "bv" && b.num.Sign() == 0 {
			return a
		}
		if a.op == "bv" && a.num.Sign() == 0 {
			return b
		}
		return mk("bvadd", a.sort, a, b)
	}
	return Add(a, b)
}
func (ex *Exec) isub(a, b *Term) *Term {
	if isBV(a.sort) {
		if b.op == "bv" && b.num.Sign() == 0 {
			return a
		}
		return mk("bvsub", a.sort, a, b)
	}
	return Sub(a, b)
}

func (ex *Exec) project(v Val, t types.Type, p PE) (Val, types.Type) {
	if p.idx != nil {
		a, ok := v.(*ArrV)
		if !ok {
			panic(unsupported("index projection of %T", v))
		}
		var ts []*Term
		for _, x := range a.arrs {
			ts = append(ts, Select(x, p.idx))
		}
		return ex.ty.unflat(a.elem, ts), a.elem
	}
	s, ok := v.(*StructV)
	if !ok {
		panic(unsupported("field projection of %T", v))
	}
	for i, f := range structFields(s.typ) {
		if f.n == p.field {
			return s.f[i], f.t
		}
	}
	panic(unsupported("no field %s in %s", p.field, s.typ))
}

func (ex *Exec) update(v Val, path []PE, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	if p.idx != nil {
		a := v.(*ArrV)
		var ts []*Term
		for _, x := range a.arrs {
			ts = append(ts, Select(x, p.idx))
		}
		old := ex.ty.unflat(a.elem, ts)
		n := ex.update(old, path[1:], nv)
		fl := ex.ty.flatten(n, a.elem)
		r := &ArrV{a.n, a.elem, nil}
		for i, x := range a.arrs {
			r.arrs = append(r.arrs, Store(x, p.idx, fl[i]))
		}
		return r
	}
	s := v.(*StructV)
	r := &StructV{s.typ, append([]Val{}, s.f...)}
	for i, f := range structFields(s.typ) {
		if f.n == p.field {
			r.f[i] = ex.update(s.f[i], path[1:], nv)
			return r
		}
	}
	panic(unsupported("no field %s", p.field))
}

func (ex *Exec) store(st *State, l Loc, v Val) {
	if l.cell > 0 {
		st.cells[l.cell] = ex.update(st.cells[l.cell], l.path, v)
		return
	}
	if f, ok := v.(*FuncV); ok {
		ex.fnTerms[f.term()] = f
	}
	ex.guardCheck(st, l, true)
	if l.elem && l.idx == nil {
		// whole array stored to slice memory
		for i, lf := range ex.ty.leaves(l.typ.Underlying().(*types.Array).Elem()) {
			hs := ArraySort(SRef, ArraySort(ex.ty.idxSort(), lf.Sort))
			ex.logStore(st, l.root+lf.Suf, hs, l.base)
			st.heapSet(l.root+lf.Suf, hs, Store(ex.heapGet(st, l.root+lf.Suf, hs), l.base, v.(*ArrV).arrs[i]))
		}
		return
	}
	key, idx := ex.locKey(l)
	ls := ex.ty.leaves(l.typ)
	ts := ex.ty.flatten(v, l.typ)
	for i, lf := range ls {
		s := lf.Sort
		if idx != nil || l.elem {
			s = ArraySort(ex.ty.idxSort(), s)
		}
		hs := ArraySort(SRef, s)
		h := ex.heapGet(st, key+lf.Suf, hs)
		ex.logStore(st, key+lf.Suf, hs, l.base)
		var nv *Term
		if l.elem {
			nv = Store(h, l.base, Store(Select(h, l.base), l.idx, ts[i]))
		} else if idx != nil {
			nv = Store(h, l.base, Store(Select(h, l.base), idx, ts[i]))
		} else {
			nv = Store(h, l.base, ts[i])
		}
		st.heapSet(key+lf.Suf, hs, nv)
	}
}

func (ex *Exec) newCell(st *State, name string, t types.Type, v Val) int {
	ex.cellSeq++
	id := ex.cellSeq
	ex.cinfo[id] = cellInfo{name, t}
	st.cells[id] = v
	return id
}

func (ex *Exec) newRef(st *State, prefix string) *Term {
	r := Fresh(prefix, SRef)
	st.assume(Eq(birth(r), st.now))
	st.assume(Not(Eq(r, nilRef)))
	st.now = Add(st.now, Num(1))
	return r
}

func (ex *Exec) zero(t types.Type) Val {
	switch u := t.(type) {
	case *gmap, *gsort:
		_ = u
		return Fresh("zero", ex.ty.scalarSort(t))
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		return Var("zero_"+tp.Obj().Name(), ex.ty.scalarSort(t))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(u); ok {
			if ex.ty.bv {
				return BV(big.NewInt(0), w)
			}
			return Num(0)
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tFalse
		case types.String:
			return ex.strConst("")
		case types.Float32, types.Float64:
			return Var("fzero_"+u.Name(), ex.ty.scalarSort(t))
		case types.UnsafePointer, types.UntypedNil:
			return nilRef
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return nilRef
	case *types.Signature:
		return &FuncV{t: nilFn, sig: u}
	case *types.Interface:
		return nilIface
	case *types.Slice:
		return &SliceV{nilRef, ex.idx(0), ex.idx(0), ex.idx(0), u.Elem()}
	case *types.Array:
		a := &ArrV{n: u.Len(), elem: u.Elem()}
		for _, l := range ex.ty.flatten(ex.zero(u.Elem()), u.Elem()) {
			a.arrs = append(a.arrs, ConstArr(ex.ty.idxSort(), l))
		}
		return a
	case *types.Struct:
		s := &StructV{typ: t}
		for _, f := range structFields(t) {
			s.f = append(s.f, ex.zero(f.t))
		}
		return s
	}
	panic(unsupported("zero of %s", t))
}

func (ex *Exec) freshVal(st *State, prefix string, t types.Type) Val {
	var ts []*Term
	for _, l := range ex.ty.leaves(t) {
		v := Fresh(prefix+l.Suf, l.Sort)
		if l.Sort == SRef && l.Arr == 0 {
		}
		ts = append(ts, v)
	}
	v := ex.ty.unflat(t, ts)
	ex.typeAssume(st, v, t)
	return ex.resolve(v, t)
}

var strMu sync.Mutex
var strIDs = map[string]int{}

func (ex *Exec) strConst(s string) *Term {
	strMu.Lock()
	defer strMu.Unlock()
	id, ok := strIDs[s]
	if !ok {
		id = len(strIDs) + 1
		strIDs[s] = id
	}
	t := Var(fmt.Sprintf("str:%d:%s", id, sanitize(s)), SStr)
	if !ok {
		addVarAxiom(t, Eq(UF("strid", SInt, t), Num(int64(id))))
		addVarAxiom(t, Eq(UF("strlen", SInt, t), Num(int64(len(s)))))
		if len(s) <= 32 {
			for i := range len(s) {
				addVarAxiom(t, Eq(UF("strat", SInt, t, Num(int64(i))), Num(int64(s[i]))))
			}
		}
	}
	return t
}

// allocObj creates a zeroed heap object of type t and returns its reference.
func (ex *Exec) allocObj(st *State, t types.Type, prefix string) *Term {
	r := ex.newRef(st, prefix)
	ex.storeQuiet(st, Loc{base: r, root: typeKey(t), typ: t}, ex.zero(t))
	// a new sync.Pool holds nothing
	var walk func(key string, t types.Type)
	walk = func(key string, t types.Type) {
		if typeFullName(t) == "sync.Pool" {
			k := "$pool." + key
			st.heapSet(k, poolSort, Store(ex.heapGet(st, k, poolSort), r, ConstArr(SRef, tFalse)))
			return
		}
		if s, ok := t.Underlying().(*types.Struct); ok {
			if _, opaque := opaqueStructs[typeFullName(t)]; opaque {
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				walk(key+"."+s.Field(i).Name(), s.Field(i).Type())
			}
		}
	}
	walk(typeKey(t), t)
	return r
}

func (ex *Exec) storeQuiet(st *State, l Loc, v Val) { ex.store(st, l, v) }

// ---------- proving ----------

func (ex *Exec) prove(st *State, goal *Term, level int) bool {
	if goal == tTrue {
		return true
	}
	if st.dead {
		return true
	}
	for _, p := range st.pc {
		if p == goal {
			return true
		}
	}
	as := append(append([]*Term{}, st.pc...), Not(goal))
	if level == 1 && ex.ty.bv {
		level = 3 // bit-vectors need longer
	}
	return solve(ex.withFacts(as), level).V == Unsat
}

func (ex *Exec) posOf(ins ssa.Instruction) string {
	if ins == nil {
		return ""
	}
	p := ins.Pos()
	if !p.IsValid() {
		return ins.Parent().Name()
	}
	q := ex.ld.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, ex.ld.repo+"/"), q.Line)
}

// check records an obligation and then assumes it.
func (ex *Exec) check(st *State, goal *Term, kind, label, pos string) {
	if st.mode == ModeDry {
		return
	}
	if st.mode == ModeInfer {
		st.assume(goal)
		return
	}
	if goal.op == "and" {
		for i, g := range goal.args {
			ex.check(st, g, kind, fmt.Sprintf("(part %d) %s", i+1, label), pos)
		}
		return
	}
	vc := &VC{Func: ex.name, Kind: kind, Label: label, Pos: pos, Path: strings.Join(st.path, ">")}
	ex.mu.Lock()
	ex.vcs = append(ex.vcs, vc)
	ex.mu.Unlock()
	if goal == tTrue || st.dead {
		vc.Verdict, vc.Backend = "unsat", "simplifier"
		return
	}
	n := len(st.pc)
	pc := ex.withFacts(append(append([]*Term{}, st.pc...), goal))
	pc = append(pc[:n], pc[n+1:]...)
	inPC := false
	for _, p := range pc {
		if p == goal {
			inPC = true
		}
	}
	if inPC {
		vc.Verdict, vc.Backend = "unsat", "simplifier"
		return
	}
	ex.wg.Add(1)
	go func() {
		defer ex.wg.Done()
		defer func() {
			if r := recover(); r != nil {
				vc.Verdict, vc.Model = "error", fmt.Sprint(r)
			}
		}()
		r := solve(append(pc, negated(goal)...), 2)
		vc.Verdict, vc.Backend, vc.Sec, vc.Model = r.V.String(), r.Backend, r.Dur.Seconds(), r.Model
		if r.V != Unsat {
			vc.Query = BuildQuery(append(append([]*Term{}, pc...), Not(goal)))
		}
	}()
	st.assume(goal)
}

// negated takes the negation of a goal apart, so that what it supposes can be
// instantiated like any other fact.
func negated(goal *Term) []*Term {
	var out []*Term
	for {
		switch {
		case goal.op == "=>":
			out = append(out, conjuncts(strengthen(goal.args[0]))...)
			goal = goal.args[1]
		case goal.op == "forall":
			m := map[*Term]*Term{}
			for _, b := range goal.bvs {
				m[b] = Fresh("any_"+strings.SplitN(b.name, "?", 2)[0], b.sort)
			}
			goal = Subst(goal.args[0], m)
		default:
			return append(out, Not(goal))
		}
	}
}

func conjuncts(t *Term) []*Term {
	if t.op != "and" {
		return []*Term{t}
	}
	var out []*Term
	for _, a := range t.args {
		out = append(out, conjuncts(a)...)
	}
	return out
}

// reindex restates a quantifier over several positions of slices over their array indices, so that
// the accesses themselves can serve as triggers.
func reindex(t *Term) *Term {
	body := t.args[0]
	offs := map[*Term]map[*Term]*Term{} // variable -> offset -> an access
	bound := map[*Term]bool{}
	for _, b := range t.bvs {
		bound[b] = true
		offs[b] = map[*Term]*Term{}
	}
	seen := map[*Term]bool{}
	other := false
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] || !x.open {
			return
		}
		seen[x] = true
		if x.op == "forall" || x.op == "exists" {
			other = true
			return
		}
		for _, a := range x.args {
			rec(a)
		}
		if x.op == "select" && x.args[1].sort == SInt {
			for _, b := range t.bvs {
				if !occurs(b, x.args[1]) {
					continue
				}
				off := Sub(x.args[1], b)
				if off.open || x.args[0].open {
					other = true
					continue
				}
				offs[b][off] = x
			}
		}
	}
	rec(body)
	if other {
		return t
	}
	m := map[*Term]*Term{}
	moved := false
	var pat []*Term
	for _, b := range t.bvs {
		if b.sort != SInt || len(offs[b]) != 1 {
			return t
		}
		for off, sel := range offs[b] {
			if off != Num(0) {
				moved = true
			}
			m[b] = Sub(b, off)
			pat = append(pat, sel)
		}
	}
	if !moved {
		return t
	}
	for i := range pat {
		pat[i] = Subst(pat[i], m)
		ok := false
		for _, b := range t.bvs {
			ok = ok || pat[i].args[1] == b
		}
		if !ok {
			return t
		}
	}
	return Forall(t.bvs, Subst(body, m), pat)
}

// feasible reports whether the condition may hold on this path.
func (ex *Exec) feasible(st *State, c *Term) bool {
	if c == tFalse || st.dead {
		return false
	}
	if c == tTrue {
		return true
	}
	for _, p := range st.pc {
		if p == c {
			return true
		}
		if p == Not(c) {
			return false
		}
	}
	if st.mode == ModeDry {
		return true
	}
	as := append(append([]*Term{}, st.pc...), c)
	return solve(ex.withFacts(as), 0).V != Unsat
}

// fact records that a machine value mentioned only by a specification is in the range of its type.
func (ex *Exec) fact(v Val, t types.Type) {
	add := ex.addFact
	switch x := v.(type) {
	case *Term:
		if x := bare(x); x != nil && x.sort == SInt {
			if lo, hi := intRange(t); lo != nil {
				add(Le(NumBig(lo), x))
				add(Le(x, NumBig(hi)))
			}
		}
	case *FuncV:
		if x.fn == nil {
			if f := bare(x.term()); f != nil {
				if k := fnKind(f); k != nil {
					add(k)
				}
			}
		}
	case *SliceV:
		z := ex.idx(0)
		mx := ex.idxBig(maxLen)
		for _, y := range []*Term{x.off, x.len, x.cap} {
			if y := bare(y); y != nil {
				add(And(ex.sle(z, y), ex.sle(y, mx)))
			}
		}
		for _, y := range []*Term{x.ref, x.off, x.len, x.cap} {
			if bare(y) != y {
				return
			}
		}
		add(And(ex.sle(z, x.off), ex.sle(z, x.len), ex.sle(x.len, x.cap), ex.sle(x.cap, mx), ex.sle(x.off, mx)))
		add(Imp(Eq(x.ref, nilRef), And(Eq(x.cap, z), Eq(x.off, z))))
	}
}

func (ex *Exec) addFact(f *Term) {
	if f == tTrue || f.open {
		return
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if ex.factSeen == nil {
		ex.factSeen = map[*Term]bool{}
	}
	if !ex.factSeen[f] {
		ex.factSeen[f] = true
		ex.facts = append(ex.facts[:len(ex.facts):len(ex.facts)], f)
	}
}

// bare is what a memory location held before the stores of this path: a value that has the
// type's properties on every path, unlike one that was computed. It is nil if x was computed.
func bare(x *Term) *Term {
	switch {
	case x.open:
		return nil
	case x.op == "var" || strings.HasPrefix(x.op, "uf:"):
		return x
	case x.op == "select":
		a := x.args[0]
		for a.op == "store" {
			a = a.args[0]
		}
		if a = bare(a); a != nil {
			return Select(a, x.args[1])
		}
	}
	return nil
}

// withFacts adds the recorded facts about the values that the assertions speak of.
func (ex *Exec) withFacts(as []*Term) []*Term {
	ex.mu.Lock()
	fs := ex.facts
	ex.mu.Unlock()
	if len(fs) == 0 {
		return as
	}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, a := range as {
		walk(a)
	}
	about := map[*Term]bool{}
	var in func(t *Term) bool
	in = func(t *Term) bool {
		if seen[t] {
			return true
		}
		if t.op == "var" {
			return false
		}
		if r, ok := about[t]; ok {
			return r
		}
		r := true
		for _, a := range t.args {
			if !in(a) {
				r = false
				break
			}
		}
		about[t] = r
		return r
	}
	for _, f := range fs {
		if in(f) {
			as = append(as, f)
		}
	}
	return as
}

// split explores both branches of c.
func (ex *Exec) split(st *State, c *Term, tag string, yes, no func(st *State)) {
	var n bool
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		n = ex.feasible(st, Not(c))
	}()
	y := ex.feasible(st, c)
	if r := <-done; r != nil {
		panic(r)
	}
	if y && n {
		s2 := st.clone()
		if yes != nil {
			st.assume(c)
			st.path = append(st.path, "+"+tag)
			yes(st)
		}
		if no != nil {
			s2.assume(Not(c))
			s2.path = append(s2.path, "-"+tag)
			no(s2)
		}
		return
	}
	if y && yes != nil {
		st.assume(c)
		yes(st)
	} else if n && no != nil {
		st.assume(Not(c))
		no(st)
	}
}

// ---------- running ----------

func (ex *Exec) val(st *State, v ssa.Value) Val {
	f := st.top()
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x, f.tsub.apply(x.Type()))
	case *ssa.Function:
		return &FuncV{fn: x, tsub: f.tsub, sig: x.Signature}
	case *ssa.Global:
		return &PtrV{Loc{base: Var("global:"+x.RelString(nil), SRef), root: "G:" + x.RelString(nil), typ: f.tsub.apply(x.Type().Underlying().(*types.Pointer).Elem())}}
	case *ssa.Builtin:
		return x
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == x {
				return f.free[i]
			}
		}
	}
	r, ok := f.env[v]
	if !ok {
		panic(unsupported("value %s = %s not available in %s", v.Name(), v, f.fn))
	}
	return r
}

func (ex *Exec) constVal(c *ssa.Const, t types.Type) Val {
	if c.Value == nil {
		return ex.zero(t)
	}
	if w, _, ok := intType(t); ok {
		bi, ok2 := constant.Val(constant.ToInt(c.Value)).(*big.Int)
		if !ok2 {
			i64, _ := constant.Int64Val(constant.ToInt(c.Value))
			bi = big.NewInt(i64)
		}
		if ex.ty.bv {
			return BV(bi, w)
		}
		return NumBig(bi)
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return UF("const_"+typeKey(t)+"_"+c.Value.ExactString(), ex.ty.scalarSort(t))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return ex.strConst(constant.StringVal(c.Value))
		case u.Info()&types.IsFloat != 0:
			if constant.Sign(c.Value) == 0 {
				return ex.zero(t)
			}
			return Var("fconst_"+u.Name()+"_"+c.Value.ExactString(), ex.ty.scalarSort(t))
		}
	}
	panic(unsupported("constant %s : %s", c, t))
}

// toLoc turns a pointer value into a location.
func (ex *Exec) toLoc(v Val, ptrType types.Type) Loc {
	switch p := v.(type) {
	case *PtrV:
		return p.loc
	case *Term:
		el := ptrType.Underlying().(*types.Pointer).Elem()
		return Loc{base: p, root: typeKey(el), typ: el}
	}
	panic(unsupported("pointer value %T", v))
}

func (ex *Exec) nilCheck(st *State, v Val, what string, ins ssa.Instruction) {
	if t, ok := v.(*Term); ok && t.sort == SRef {
		ex.check(st, Not(Eq(t, nilRef)), "panic-freedom", "nil dereference: "+what, ex.posOf(ins))
		if st.mode == ModeDry {
			return
		}
	}
}

func (ex *Exec) runBlock(st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		ex.steps++
		if ex.steps > 2000000 {
			panic(unsupported("step budget exceeded"))
		}
		ins := b.Instrs[i]
		f := st.top()
		switch x := ins.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			cv := ex.val(st, x.Cond).(*Term)
			ex.split(st, cv, fmt.Sprintf("b%d", b.Index),
				func(s *State) { ex.jump(s, b, b.Succs[0]) },
				func(s *State) { ex.jump(s, b, b.Succs[1]) })
			return
		case *ssa.Jump:
			ex.jump(st, b, b.Succs[0])
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range x.Results {
				rs = append(rs, ex.val(st, r))
			}
			k := f.k
			st.frames = st.frames[:len(st.frames)-1]
			k(st, rs)
			return
		case *ssa.Panic:
			if ex.con != nil && ex.con.mayPanic {
				ex.unwind(st)
				return
			}
			ex.check(st, tFalse, "panic-freedom", "explicit panic", ex.posOf(ins))
			return
		case *ssa.RunDefers:
			nb, ni := b, i+1
			ex.runDefers(st, func(s *State) { ex.runBlock(s, nb, ni) })
			return
		case *ssa.Call:
			nb, ni := b, i+1
			ex.call(st, x, x.Common(), func(s *State, rets []Val) {
				switch len(rets) {
				case 0:
				case 1:
					s.top().env[x] = rets[0]
				default:
					s.top().env[x] = &TupleV{rets}
				}
				ex.runBlock(s, nb, ni)
			})
			return
		case *ssa.Defer:
			d := deferred{call: x.Common(), ins: x}
			d.fv, d.args = ex.evalCall(st, x.Common())
			f.defers = append(f.defers, d)
		case *ssa.Go:
			ex.goStmt(st, x)
		case *ssa.Select:
			nb, ni := b, i+1
			ex.selectStmt(st, x, func(s *State, v Val) {
				s.top().env[x] = v
				ex.runBlock(s, nb, ni)
			})
			return
		case *ssa.Next:
			nb, ni := b, i+1
			ex.next(st, x, func(s *State, v Val) {
				s.top().env[x] = v
				ex.runBlock(s, nb, ni)
			})
			return
		case *ssa.Store:
			p := ex.val(st, x.Addr)
			ex.nilCheck(st, p, "store", ins)
			ex.store(st, ex.toLoc(p, f.tsub.apply(x.Addr.Type())), ex.val(st, x.Val))
		case *ssa.Send:
			ex.send(st, x)
		case *ssa.MapUpdate:
			ex.mapUpdate(st, x)
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				nb, ni := b, i+1
				ex.recv(st, x, func(s *State, v Val) {
					s.top().env[x] = v
					ex.runBlock(s, nb, ni)
				})
				return
			}
			f.env[x] = ex.unop(st, x)
		case *ssa.Slice:
			f.env[x] = ex.sliceOp(st, x)
		case *ssa.TypeAssert:
			nb, ni := b, i+1
			ex.typeAssert(st, x, func(s *State, v Val) {
				s.top().env[x] = v
				ex.runBlock(s, nb, ni)
			})
			return
		case ssa.Value:
			f.env[x] = ex.pure(st, x)
		default:
			panic(unsupported("instruction %T", ins))
		}
	}
}

func (ex *Exec) jump(st *State, from, to *ssa.BasicBlock) {
	if st.dead {
		return
	}
	f := st.top()
	// phis read their values on the edge
	var phis []ssa.Value
	var vals []Val
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range to.Preds {
			if pr == from {
				phis = append(phis, p)
				vals = append(vals, ex.val(st, p.Edges[i]))
			}
		}
	}
	for i := range phis {
		f.env[phis[i]] = vals[i]
	}
	// leaving loops
	for len(f.loops) > 0 {
		l := f.loops[len(f.loops)-1]
		if l.blocks[to] {
			break
		}
		if l.stopAtExit {
			return
		}
		f.loops = f.loops[: len(f.loops)-1 : len(f.loops)-1]
	}
	if lp := ex.ld.loopAt(f.fn, to); lp != nil {
		for i := len(f.loops) - 1; i >= 0; i-- {
			if f.loops[i].header == to {
				f.loops[i].hook(st)
				return
			}
		}
		ex.enterLoop(st, to, lp)
		return
	}
	n := 0
	for _, ins := range to.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			n++
		} else {
			break
		}
	}
	ex.runBlock(st, to, n)
}

func (ex *Exec) runDefers(st *State, k func(st *State)) {
	f := st.top()
	if len(f.defers) == 0 {
		k(st)
		return
	}
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[: len(f.defers)-1 : len(f.defers)-1]
	ex.callVal(st, d.ins, d.call, d.fv, d.args, func(s *State, _ []Val) { ex.runDefers(s, k) })
}

// unwind propagates a panic: deferred calls of every frame run, then the top-level panic exit.
func (ex *Exec) unwind(st *State) {
	st.panicking = true
	if len(st.frames) == 0 {
		if ex.onPanic != nil {
			ex.onPanic(st)
		}
		return
	}
	ex.runDefers(st, func(s *State) {
		s.frames = s.frames[:len(s.frames)-1]
		ex.unwind(s)
	})
}

// pushCall executes the body of fn.
func (ex *Exec) pushCall(st *State, fn *ssa.Function, tsub tsubst, args []Val, free []Val, k Kont) {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body for %s", fn))
	}
	if len(st.frames) > 12 {
		panic(unsupported("inlining too deep at %s", fn))
	}
	fr := &Frame{fn: fn, tsub: tsub, env: map[ssa.Value]Val{}, free: free, k: k, depth: len(st.frames)}
	if len(args) != len(fn.Params) {
		panic(unsupported("arity mismatch calling %s: %d vs %d", fn, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	st.frames = append(st.frames, fr)
	b := fn.Blocks[0]
	if lp := ex.ld.loopAt(fn, b); lp != nil {
		ex.enterLoop(st, b, lp)
		return
	}
	ex.runBlock(st, b, 0)
}

func isNamedObj(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.Named); ok {
		switch t.Underlying().(type) {
		case *types.Struct, *types.Slice:
			return true
		}
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func (ex *Exec) pure(st *State, v ssa.Value) Val {
	f := st.top()
	T := func(t types.Type) types.Type { return f.tsub.apply(t) }
	switch x := v.(type) {
	case *ssa.Alloc:
		el := T(x.Type().Underlying().(*types.Pointer).Elem())
		if x.Comment == "defer$stack" {
			return &PtrV{Loc{cell: ex.newCell(st, "$defer", types.Typ[types.Int], Num(0)), typ: types.Typ[types.Int]}}
		}
		if x.Heap && isNamedObj(el) {
			r := ex.allocObj(st, el, "new_"+x.Comment)
			if x.Comment != "complit" && x.Comment != "new" {
				// a variable whose address is taken: its address can stand for a metavariable of loop templates
				f.cells = append(f.cells, ex.newCell(st, "&"+x.Comment, types.NewPointer(el), r))
			}
			return r
		}
		if at, ok := el.Underlying().(*types.Array); ok && hasSliceUse(x) {
			r := ex.newRef(st, "arr")
			z := ex.zero(el).(*ArrV)
			for i, l := range ex.ty.leaves(at.Elem()) {
				hs := ArraySort(SRef, ArraySort(ex.ty.idxSort(), l.Sort))
				key := "[]" + typeKey(at.Elem()) + l.Suf
				st.heapSet(key, hs, Store(ex.heapGet(st, key, hs), r, z.arrs[i]))
			}
			return &PtrV{Loc{base: r, root: "[]" + typeKey(at.Elem()), elem: true, typ: el, idx: nil}}
		}
		id := 0
		if old, ok := f.env[x].(*PtrV); ok && !x.Heap {
			id = old.loc.cell
			st.cells[id] = ex.zero(el)
		} else {
			id = ex.newCell(st, x.Comment, el, ex.zero(el))
			f.cells = append(f.cells, id)
		}
		return &PtrV{Loc{cell: id, typ: el}}
	case *ssa.BinOp:
		return ex.binop(st, x.Op, ex.val(st, x.X), ex.val(st, x.Y), T(x.X.Type()), T(x.Y.Type()), x)
	case *ssa.ChangeType:
		r := ex.val(st, x.X)
		if t, d := T(x.X.Type()), T(x.Type()); isTypeParam(t) && types.IsInterface(d) && !isTypeParam(d) {
			return ex.makeIface(st, r, t) // ssa takes the type parameter for its constraint
		}
		return retype(r, T(x.Type()))
	case *ssa.ChangeInterface:
		if t := T(x.X.Type()); isTypeParam(t) {
			return ex.makeIface(st, ex.val(st, x.X), t)
		}
		return ex.val(st, x.X)
	case *ssa.Convert:
		return ex.convert(st, ex.val(st, x.X), T(x.X.Type()), T(x.Type()))
	case *ssa.MultiConvert:
		return ex.convert(st, ex.val(st, x.X), T(x.X.Type()), T(x.Type()))
	case *ssa.Extract:
		return ex.val(st, x.Tuple).(*TupleV).v[x.Index]
	case *ssa.Field:
		s := ex.val(st, x.X).(*StructV)
		fs := structFields(s.typ)
		n := fieldName(x.X.Type(), x.Field)
		for i := range fs {
			if fs[i].n == n {
				return s.f[i]
			}
		}
		panic(unsupported("field %s", n))
	case *ssa.FieldAddr:
		p := ex.val(st, x.X)
		ex.nilCheck(st, p, "field "+fieldName(x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field), x)
		l := ex.toLoc(p, T(x.X.Type()))
		n := fieldName(x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
		l.path = append(l.path[:len(l.path):len(l.path)], PE{field: n})
		l.typ = T(x.Type().Underlying().(*types.Pointer).Elem())
		return &PtrV{l}
	case *ssa.Index:
		a, ok := ex.val(st, x.X).(*ArrV)
		if !ok {
			if _, isStr := T(x.X.Type()).Underlying().(*types.Basic); isStr {
				s := ex.val(st, x.X).(*Term)
				i := ex.asInt64(st, ex.val(st, x.Index).(*Term), T(x.Index.Type()))
				ex.check(st, And(Le(Num(0), i), Lt(i, UF("strlen", SInt, s))), "panic-freedom", "string index in range", ex.posOf(x))
				r := UF("strat", SInt, s, i)
				ex.typeAssume(st, r, types.Typ[types.Uint8])
				return r
			}
			panic(unsupported("Index on %s", x.X.Type()))
		}
		i := ex.asInt64(st, ex.val(st, x.Index).(*Term), T(x.Index.Type()))
		ex.check(st, And(ex.sle(ex.idx(0), i), ex.slt(i, ex.idx(a.n))), "panic-freedom", "array index in range", ex.posOf(x))
		r, _ := ex.project(a, nil, PE{idx: i})
		ex.typeAssume(st, r, a.elem)
		return r
	case *ssa.IndexAddr:
		i := ex.asInt64(st, ex.val(st, x.Index).(*Term), T(x.Index.Type()))
		xv := ex.val(st, x.X)
		switch u := T(x.X.Type()).Underlying().(type) {
		case *types.Slice:
			s := xv.(*SliceV)
			ex.check(st, And(ex.sle(ex.idx(0), i), ex.slt(i, s.len)), "panic-freedom", "slice index in range", ex.posOf(x))
			return &PtrV{Loc{base: s.ref, root: "[]" + typeKey(u.Elem()), elem: true, idx: ex.iadd(s.off, i), typ: u.Elem()}}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			ex.nilCheck(st, xv, "array", x)
			ex.check(st, And(ex.sle(ex.idx(0), i), ex.slt(i, ex.idx(at.Len()))), "panic-freedom", "array index in range", ex.posOf(x))
			l := ex.toLoc(xv, T(x.X.Type()))
			if l.elem {
				if l.idx != nil {
					panic(unsupported("nested array element"))
				}
				l.idx = i
				l.typ = at.Elem()
				return &PtrV{l}
			}
			l.path = append(l.path[:len(l.path):len(l.path)], PE{idx: i})
			l.typ = at.Elem()
			return &PtrV{l}
		}
		panic(unsupported("IndexAddr on %s", x.X.Type()))
	case *ssa.Lookup:
		return ex.lookup(st, x)
	case *ssa.MakeClosure:
		fv := &FuncV{fn: x.Fn.(*ssa.Function), tsub: f.tsub, sig: x.Fn.Type().(*types.Signature)}
		for _, b := range x.Bindings {
			fv.free = append(fv.free, ex.val(st, b))
		}
		return fv
	case *ssa.MakeInterface:
		return ex.makeIface(st, ex.val(st, x.X), T(x.X.Type()))
	case *ssa.MakeMap:
		return ex.makeMap(st, T(x.Type()))
	case *ssa.MakeSlice:
		el := T(x.Type()).Underlying().(*types.Slice).Elem()
		n := ex.asInt64(st, ex.val(st, x.Len).(*Term), T(x.Len.Type()))
		c := ex.asInt64(st, ex.val(st, x.Cap).(*Term), T(x.Cap.Type()))
		ex.check(st, And(ex.sle(ex.idx(0), n), ex.sle(n, c)), "panic-freedom", "makeslice size in range", ex.posOf(x))
		st.assume(ex.sle(c, ex.idxBig(maxLen)))
		return ex.makeSlice(st, el, n, c)
	case *ssa.MakeChan:
		r := ex.newRef(st, "chan")
		ex.chanInit(st, r, ex.val(st, x.Size).(*Term))
		return r
	case *ssa.Range:
		return ex.rangeInit(st, x)
	case *ssa.Phi:
		return f.env[x]
	}
	if v.Name() != "" && strings.Contains(v.String(), "deferstack") {
		return Num(0)
	}
	panic(unsupported("value %T %s", v, v))
}

func (ex *Exec) makeSlice(st *State, el types.Type, n, c *Term) *SliceV {
	r := ex.newRef(st, "mk")
	z := ex.ty.flatten(ex.zero(el), el)
	for i, l := range ex.ty.leaves(el) {
		hs := ArraySort(SRef, ArraySort(ex.ty.idxSort(), l.Sort))
		key := "[]" + typeKey(el) + l.Suf
		st.heapSet(key, hs, Store(ex.heapGet(st, key, hs), r, ConstArr(ex.ty.idxSort(), z[i])))
	}
	return &SliceV{r, ex.idx(0), n, c, el}
}

func hasSliceUse(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if _, ok := r.(*ssa.Slice); ok {
			return true
		}
	}
	return false
}

func retype(v Val, t types.Type) Val {
	if s, ok := v.(*StructV); ok {
		return &StructV{t, s.f}
	}
	if s, ok := v.(*FuncV); ok {
		c := *s
		if sg, ok := t.Underlying().(*types.Signature); ok {
			c.sig = sg
		}
		return &c
	}
	return v
}

func fieldName(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	n := st.Field(i).Name()
	if n == "_" {
		return fmt.Sprintf("_%d", i)
	}
	return n
}

// asInt64 views an index operand as an index-sorted term.
func (ex *Exec) asInt64(st *State, t *Term, typ types.Type) *Term {
	if ex.ty.bv {
		w, s, _ := intType(typ)
		if w == 64 {
			return t
		}
		if t.op == "bv" {
			return BV(t.num, 64)
		}
		if s {
			return mk(fmt.Sprintf("(_ sign_extend %d)", 64-w), BVSort(64), t)
		}
		return mk(fmt.Sprintf("(_ zero_extend %d)", 64-w), BVSort(64), t)
	}
	return t
}

func (ex *Exec) unop(st *State, x *ssa.UnOp) Val {
	f := st.top()
	v := ex.val(st, x.X)
	switch x.Op {
	case token.MUL:
		ex.nilCheck(st, v, "load", x)
		l := ex.toLoc(v, f.tsub.apply(x.X.Type()))
		if l.elem && l.idx == nil {
			// whole array loaded from slice memory
			at := l.typ.Underlying().(*types.Array)
			a := &ArrV{n: at.Len(), elem: at.Elem()}
			for _, lf := range ex.ty.leaves(at.Elem()) {
				hs := ArraySort(SRef, ArraySort(ex.ty.idxSort(), lf.Sort))
				a.arrs = append(a.arrs, Select(ex.heapGet(st, l.root+lf.Suf, hs), l.base))
			}
			return a
		}
		ex.guardCheck(st, l, false)
		return ex.load(st, l)
	case token.NOT:
		return Not(v.(*Term))
	case token.SUB:
		t := f.tsub.apply(x.X.Type())
		if _, _, ok := intType(t); ok {
			if ex.ty.bv {
				return mk("bvneg", v.(*Term).sort, v.(*Term))
			}
			return ex.norm(st, Sub(Num(0), v.(*Term)), t)
		}
		return UF("fneg_"+string(v.(*Term).sort), v.(*Term).sort, v.(*Term))
	case token.XOR:
		t := f.tsub.apply(x.X.Type())
		w, s, _ := intType(t)
		if ex.ty.bv {
			return mk("bvnot", v.(*Term).sort, v.(*Term))
		}
		if s {
			return Sub(Num(-1), v.(*Term))
		}
		m := new(big.Int).Lsh(big.NewInt(1), uint(w))
		return Sub(NumBig(m.Sub(m, big.NewInt(1))), v.(*Term))
	}
	panic(unsupported("unop %s", x))
}

// norm reduces a mathematical integer into the range of Go type t (wrap-around).
func (ex *Exec) norm(st *State, raw *Term, t types.Type) *Term {
	lo, hi := intRange(t)
	if lo == nil {
		return raw
	}
	if raw.lo != nil && raw.hi != nil && raw.lo.Cmp(lo) >= 0 && raw.hi.Cmp(hi) <= 0 {
		return raw
	}
	w, signed, _ := intType(t)
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	in := And(Le(NumBig(lo), raw), Le(raw, NumBig(hi)))
	if st.mode != ModeDry && ex.prove(st, in, 0) {
		return raw
	}
	if raw.op == "num" {
		r := new(big.Int).Sub(raw.num, lo)
		r.Mod(r, m)
		return NumBig(r.Add(r, lo))
	}
	if !signed {
		return EMod(raw, NumBig(m))
	}
	// single wrap suffices for sums; use mod for anything bigger
	if raw.op == "+" || raw.op == "num" {
		n := 0
		for _, a := range raw.args {
			if a.op != "num" {
				n++
			}
		}
		if n <= 2 && st.mode != ModeDry {
			wide := And(Le(NumBig(new(big.Int).Sub(lo, m)), raw), Le(raw, NumBig(new(big.Int).Add(hi, m))))
			if ex.prove(st, wide, 0) {
				return Ite(Lt(NumBig(hi), raw), Sub(raw, NumBig(m)), Ite(Lt(raw, NumBig(lo)), Add(raw, NumBig(m)), raw))
			}
		}
	}
	half := NumBig(new(big.Int).Neg(lo))
	return Sub(EMod(Add(raw, half), NumBig(m)), half)
}

func (ex *Exec) binop(st *State, op token.Token, xv, yv Val, xt, yt types.Type, ins ssa.Instruction) Val {
	switch op {
	case token.EQL:
		return ex.valEq(xv, yv, xt)
	case token.NEQ:
		return Not(ex.valEq(xv, yv, xt))
	}
	x, ok1 := xv.(*Term)
	y, ok2 := yv.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported("binop %s on %T,%T", op, xv, yv))
	}
	w, signed, isInt := intType(xt)
	if !isInt {
		return ex.otherBinop(op, x, y, xt)
	}
	if ex.ty.bv {
		return ex.bvBinop(st, op, x, y, w, signed, yt, ins)
	}
	switch op {
	case token.ADD:
		return ex.norm(st, Add(x, y), xt)
	case token.SUB:
		return ex.norm(st, Sub(x, y), xt)
	case token.MUL:
		return ex.norm(st, Mul(x, y), xt)
	case token.QUO, token.REM:
		ex.check(st, Not(Eq(y, Num(0))), "panic-freedom", "division by zero", ex.posOf(ins))
		return ex.quoRem(st, op, x, y, xt)
	case token.LSS:
		return Lt(x, y)
	case token.LEQ:
		return Le(x, y)
	case token.GTR:
		return Lt(y, x)
	case token.GEQ:
		return Le(y, x)
	case token.SHL, token.SHR:
		_, ys, _ := intType(yt)
		if ys && y.op != "num" {
			ex.check(st, Le(Num(0), y), "panic-freedom", "shift count not negative", ex.posOf(ins))
		}
		if y.op == "num" {
			p := new(big.Int).Lsh(big.NewInt(1), uint(y.num.Int64()))
			if op == token.SHL {
				return ex.norm(st, Mul(NumBig(p), x), xt)
			}
			return EDiv(x, NumBig(p))
		}
		return ex.uninterpInt(st, "shift_"+op.String(), x, y, xt)
	case token.AND:
		if y.op != "num" {
			x, y = y, x
		}
		if y.op == "num" && y.num.Sign() >= 0 {
			m := new(big.Int).Add(y.num, big.NewInt(1))
			if m.BitLen()-1 == int(m.TrailingZeroBits()) {
				return EMod(x, NumBig(m))
			}
		}
		return ex.uninterpInt(st, "band", x, y, xt)
	case token.OR:
		for k := 0; k < 2; k++ {
			if x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 && y.tz > 0 && y.tz < 64 && x.hi.BitLen() <= y.tz && !signed {
				return Add(x, y)
			}
			x, y = y, x
		}
		for k := 0; k < 2; k++ { // disjoint bits
			if y.tz > 0 && y.tz < 64 && !signed && st.mode != ModeDry && ex.prove(st, And(Le(Num(0), x), Lt(x, NumBig(new(big.Int).Lsh(big.NewInt(1), uint(y.tz))))), 0) {
				return Add(x, y)
			}
			x, y = y, x
		}
		return ex.uninterpInt(st, "bor", x, y, xt)
	case token.XOR:
		return ex.uninterpInt(st, "bxor", x, y, xt)
	case token.AND_NOT:
		return ex.uninterpInt(st, "bandnot", x, y, xt)
	}
	panic(unsupported("binop %s", op))
}

func (ex *Exec) uninterpInt(st *State, n string, x, y *Term, t types.Type) *Term {
	w, _, _ := intType(t)
	if n == "bxor" || n == "band" || n == "bor" {
		if x.id > y.id {
			x, y = y, x
		}
	}
	if n == "bxor" && x == y {
		return Num(0)
	}
	r := UF(fmt.Sprintf("%s%d", n, w), SInt, x, y)
	ex.typeAssume(st, r, t)
	return r
}

func (ex *Exec) quoRem(st *State, op token.Token, x, y *Term, t types.Type) *Term {
	nonneg := func(z *Term) bool {
		if z.lo != nil {
			return z.lo.Sign() >= 0
		}
		return st.mode != ModeDry && ex.prove(st, Le(Num(0), z), 0)
	}
	xp, yp := nonneg(x), nonneg(y)
	var q *Term
	if xp && yp {
		if op == token.REM {
			return EMod(x, y)
		}
		return EDiv(x, y)
	}
	nx, ny := Sub(Num(0), x), Sub(Num(0), y)
	divYpos := func(a *Term) *Term { // a / y for y>0, truncated
		if a == x && xp {
			return EDiv(x, y)
		}
		return Ite(Le(Num(0), a), EDiv(a, y), Sub(Num(0), EDiv(Sub(Num(0), a), y)))
	}
	if yp {
		if op == token.REM {
			return Ite(Le(Num(0), x), EMod(x, y), Sub(Num(0), EMod(nx, y)))
		}
		q = divYpos(x)
	} else {
		absx := Ite(Le(Num(0), x), x, nx)
		absy := Ite(Le(Num(0), y), y, ny)
		if op == token.REM {
			m := EMod(absx, absy)
			return Ite(Le(Num(0), x), m, Sub(Num(0), m))
		}
		m := EDiv(absx, absy)
		q = Ite(Eq(Le(Num(0), x), Le(Num(0), y)), m, Sub(Num(0), m))
	}
	return ex.norm(st, q, t)
}

func (ex *Exec) otherBinop(op token.Token, x, y *Term, t types.Type) Val {
	s := x.sort
	switch op {
	case token.LSS:
		return ex.lt(s, x, y)
	case token.GTR:
		return ex.lt(s, y, x)
	case token.LEQ:
		if strings.HasPrefix(string(s), "T_") || s == SStr {
			return Not(ex.lt(s, y, x))
		}
		return UF("le_"+string(s), SBool, x, y)
	case token.GEQ:
		if strings.HasPrefix(string(s), "T_") || s == SStr {
			return Not(ex.lt(s, x, y))
		}
		return UF("le_"+string(s), SBool, y, x)
	case token.ADD:
		if s == SStr {
			return ex.strcat(x, y)
		}
	}
	return UF("op_"+op.String()+"_"+string(s), s, x, y)
}

// strcat joins two strings; it is normalised to join from the right, without empty parts.
func (ex *Exec) strcat(x, y *Term) *Term {
	empty := ex.strConst("")
	switch {
	case x == empty:
		return y
	case y == empty:
		return x
	case x.op == "uf:strcat":
		return ex.strcat(x.args[0], ex.strcat(x.args[1], y))
	}
	axGenMu.Lock()
	if !hasUFAxiom("strcat") {
		a, b := BVar("a", SStr), BVar("b", SStr)
		t := UF("strcat", SStr, a, b)
		for _, t := range []*Term{UF("strcat", SStr, empty, a), UF("strcat", SStr, a, empty)} {
			addUFAxiom("strcat", Forall([]*Term{a}, Eq(t, a), []*Term{t}))
		}
		c := BVar("c", SStr)
		u := UF("strcat", SStr, t, c)
		addUFAxiom("strcat", Forall([]*Term{a, b, c}, Eq(u, UF("strcat", SStr, a, UF("strcat", SStr, b, c))), []*Term{u}))
		addUFAxiom("strcat", Forall([]*Term{a, b}, Eq(UF("strlen", SInt, t), Add(UF("strlen", SInt, a), UF("strlen", SInt, b))), []*Term{t}))
	}
	axGenMu.Unlock()
	return UF("strcat", SStr, x, y)
}

// lt is the order of an ordered type parameter: a strict total order.
func (ex *Exec) lt(s Sort, x, y *Term) *Term {
	n := "lt_" + string(s)
	if s == SF64 || s == SF32 {
		return UF(n, SBool, x, y)
	}
	axGenMu.Lock()
	if !hasUFAxiom(n) {
		a, b, c := BVar("a", s), BVar("b", s), BVar("c", s)
		l := func(p, q *Term) *Term { return UF(n, SBool, p, q) }
		addUFAxiom(n, Forall([]*Term{a}, Not(l(a, a))))
		addUFAxiom(n, Forall([]*Term{a, b}, Or(l(a, b), Eq(a, b), l(b, a)), []*Term{l(a, b)}))
		addUFAxiom(n, Forall([]*Term{a, b, c}, Imp(And(l(a, b), l(b, c)), l(a, c)), []*Term{l(a, b), l(b, c)}))
	}
	axGenMu.Unlock()
	if x == y {
		return tFalse
	}
	return UF(n, SBool, x, y)
}

func (ex *Exec) valEq(x, y Val, t types.Type) *Term {
	if p, ok := x.(*PtrV); ok {
		if q, ok := y.(*Term); ok && q == nilRef {
			return tFalse
		}
		if q, ok := y.(*PtrV); ok && p.loc.cell > 0 && q.loc.cell > 0 && len(p.loc.path) == 0 && len(q.loc.path) == 0 {
			return Bool(p.loc.cell == q.loc.cell)
		}
	}
	if _, ok := y.(*PtrV); ok {
		if q, ok := x.(*Term); ok && q == nilRef {
			return tFalse
		}
	}
	if s, ok := x.(*SliceV); ok {
		if s2, ok := y.(*SliceV); ok {
			if s2.ref == nilRef {
				return Eq(s.ref, nilRef)
			}
			if s.ref == nilRef {
				return Eq(s2.ref, nilRef)
			}
		}
		panic(unsupported("slice comparison"))
	}
	if f, ok := x.(*FuncV); ok {
		if g, ok := y.(*FuncV); ok {
			return Eq(f.term(), g.term())
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		return UF("feq_"+string(x.(*Term).sort), SBool, x.(*Term), y.(*Term))
	}
	a, b := ex.ty.flatten(x, t), ex.ty.flatten(y, t)
	var cs []*Term
	for i := range a {
		cs = append(cs, Eq(a[i], b[i]))
	}
	return And(cs...)
}

func (ex *Exec) bvBinop(st *State, op token.Token, x, y *Term, w int, signed bool, yt types.Type, ins ssa.Instruction) Val {
	s := x.sort
	pick := func(a, b string) string {
		if signed {
			return a
		}
		return b
	}
	switch op {
	case token.ADD:
		return ex.iadd(x, y)
	case token.SUB:
		return mk("bvsub", s, x, y)
	case token.MUL:
		return mk("bvmul", s, x, y)
	case token.QUO, token.REM:
		ex.check(st, Not(Eq(y, BV(big.NewInt(0), w))), "panic-freedom", "division by zero", ex.posOf(ins))
		if op == token.QUO {
			return mk(pick("bvsdiv", "bvudiv"), s, x, y)
		}
		return mk(pick("bvsrem", "bvurem"), s, x, y)
	case token.LSS:
		return mk(pick("bvslt", "bvult"), SBool, x, y)
	case token.LEQ:
		return mk(pick("bvsle", "bvule"), SBool, x, y)
	case token.GTR:
		return mk(pick("bvslt", "bvult"), SBool, y, x)
	case token.GEQ:
		return mk(pick("bvsle", "bvule"), SBool, y, x)
	case token.AND:
		return mk("bvand", s, x, y)
	case token.OR:
		return mk("bvor", s, x, y)
	case token.XOR:
		return mk("bvxor", s, x, y)
	case token.AND_NOT:
		return mk("bvand", s, x, mk("bvnot", s, y))
	case token.SHL, token.SHR:
		yw, ys, _ := intType(yt)
		if ys {
			ex.check(st, mk("bvsge", SBool, y, BV(big.NewInt(0), yw)), "panic-freedom", "shift count not negative", ex.posOf(ins))
		}
		sh := "bvshl"
		if op == token.SHR {
			sh = pick("bvashr", "bvlshr")
		}
		// bring both to the wider width
		if yw == w {
			return mk(sh, s, x, y)
		}
		if yw < w {
			return mk(sh, s, x, mk(fmt.Sprintf("(_ zero_extend %d)", w-yw), s, y))
		}
		ext := fmt.Sprintf("(_ zero_extend %d)", yw-w)
		if op == token.SHR && signed {
			ext = fmt.Sprintf("(_ sign_extend %d)", yw-w)
		}
		big := mk(sh, y.sort, mk(ext, y.sort, x), y)
		return mk(fmt.Sprintf("(_ extract %d 0)", w-1), s, big)
	}
	panic(unsupported("bv binop %s", op))
}

func (ex *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fw, fs, fi := intType(from)
	tw, _, ti := intType(to)
	if fi && ti {
		x := v.(*Term)
		if ex.ty.bv {
			switch {
			case fw == tw:
				return x
			case fw > tw:
				if x.op == "bv" {
					return BV(x.num, tw)
				}
				return mk(fmt.Sprintf("(_ extract %d 0)", tw-1), BVSort(tw), x)
			case fs:
				return mk(fmt.Sprintf("(_ sign_extend %d)", tw-fw), BVSort(tw), x)
			default:
				return mk(fmt.Sprintf("(_ zero_extend %d)", tw-fw), BVSort(tw), x)
			}
		}
		return ex.norm(st, ex.ranged(x, from), to)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return retype(v, to)
	}
	if x, ok := v.(*Term); ok && isScalar(to) {
		if b, isb := to.Underlying().(*types.Basic); isb && b.Info()&types.IsFloat != 0 && fi && (x.op == "num" || x.op == "bv") && x.num.IsInt64() {
			if n := x.num.Int64(); n > -1<<24 && n < 1<<24 && x.op == "num" {
				return ex.constVal(ssa.NewConst(constant.MakeInt64(n), to), to) // exactly representable
			}
		}
		if b, isb := to.Underlying().(*types.Basic); isb && b.Info()&types.IsFloat != 0 && fi && x.op == "num" && x.num.IsInt64() {
			if n := x.num.Int64(); n > -1<<24 && n < 1<<24 {
				return ex.constVal(ssa.NewConst(constant.MakeInt64(n), to), to) // exactly representable
			}
		}
		r := UF("conv_"+typeKey(from)+"_"+typeKey(to), ex.ty.scalarSort(to), x)
		ex.typeAssume(st, r, to)
		return r
	}
	// string <-> []byte / []rune
	if x, ok := v.(*Term); ok && x.sort == SStr {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			return ex.strToSlice(st, x, sl.Elem())
		}
	}
	if x, ok := v.(*SliceV); ok && isScalar(to) {
		return ex.sliceToStr(st, x)
	}
	panic(unsupported("conversion %s -> %s", from, to))
}

// ranged attaches the range of the Go type to a term when it has none.
func (ex *Exec) ranged(x *Term, t types.Type) *Term { return x }

func (ex *Exec) sliceOp(st *State, x *ssa.Slice) Val {
	f := st.top()
	v := ex.val(st, x.X)
	get := func(w ssa.Value) *Term {
		if w == nil {
			return nil
		}
		return ex.asInt64(st, ex.val(st, w).(*Term), f.tsub.apply(w.Type()))
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = ex.idx(0)
	}
	var s *SliceV
	switch u := f.tsub.apply(x.X.Type()).Underlying().(type) {
	case *types.Slice:
		s = v.(*SliceV)
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		l := v.(*PtrV).loc
		if !l.elem || l.idx != nil {
			panic(unsupported("slicing of array location"))
		}
		n := ex.idx(at.Len())
		s = &SliceV{l.base, ex.idx(0), n, n, at.Elem()}
	case *types.Basic:
		str := v.(*Term)
		if hi == nil {
			hi = UF("strlen", SInt, str)
		}
		ex.check(st, And(Le(Num(0), lo), Le(lo, hi), Le(hi, UF("strlen", SInt, str))), "panic-freedom", "string slice bounds", ex.posOf(x))
		return ex.substr(str, lo, hi)
	default:
		panic(unsupported("slice of %s", x.X.Type()))
	}
	if hi == nil {
		hi = s.len
	}
	cp := s.cap
	if mx != nil {
		ex.check(st, ex.sle(mx, s.cap), "panic-freedom", "slice bounds (max)", ex.posOf(x))
		cp = mx
	}
	ex.check(st, And(ex.sle(ex.idx(0), lo), ex.sle(lo, hi), ex.sle(hi, cp)), "panic-freedom", "slice bounds", ex.posOf(x))
	off := ex.iadd(s.off, lo)
	ncap := ex.isub(cp, lo)
	nlen := ex.isub(hi, lo)
	if s.ref == nilRef {
		off = ex.idx(0)
	}
	return &SliceV{s.ref, off, nlen, ncap, s.elem}
}

// strengthen adds index-shifted copies of array facts so that E-matching can use them.
func strengthen(t *Term) *Term {
	switch t.op {
	case "and":
		var as []*Term
		for _, a := range t.args {
			as = append(as, strengthen(a))
		}
		return And(as...)
	case "=>":
		return Imp(t.args[0], strengthen(t.args[1]))
	case "or":
		// disjunction of at most one quantified member
		return t
	case "forall":
		if len(t.pats) > 0 {
			return t
		}
		if len(t.bvs) != 1 {
			return reindex(t)
		}
		b := t.bvs[0]
		body := t.args[0]
		if b.sort != SInt {
			return t
		}
		type trig struct {
			off *Term // index = b + off
			sel *Term
		}
		var trs []trig
		seen := map[*Term]bool{}
		var rec func(x *Term)
		rec = func(x *Term) {
			if seen[x] || !x.open {
				return
			}
			seen[x] = true
			if x.op == "forall" || x.op == "exists" {
				return
			}
			for _, a := range x.args {
				rec(a)
			}
			if x.op == "select" && x.args[1].sort == SInt && occurs(b, x.args[1]) && !occurs(b, x.args[0]) {
				off := Sub(x.args[1], b)
				if !occurs(b, off) {
					trs = append(trs, trig{off, x})
				}
			}
			if strings.HasPrefix(x.op, "uf:") {
				for _, a := range x.args {
					if a == b {
						trs = append(trs, trig{Num(0), x})
					}
				}
			}
		}
		rec(body)
		if len(trs) == 0 {
			return t
		}
		sort.SliceStable(trs, func(i, j int) bool { return trs[i].sel.id < trs[j].sel.id })
		var out []*Term
		done := map[*Term]bool{}
		for _, tr := range trs {
			nb := b
			var nbody, nsel *Term
			if tr.off.op == "num" && tr.off.num.Sign() == 0 {
				nbody, nsel = body, tr.sel
			} else {
				m := map[*Term]*Term{b: Sub(b, tr.off)}
				nbody = Subst(body, m)
				nsel = Subst(tr.sel, m)
			}
			if !occurs(nb, nsel) || done[nsel] {
				continue
			}
			done[nsel] = true
			out = append(out, Forall([]*Term{nb}, nbody, []*Term{nsel}))
		}
		return And(out...)
	}
	return t
}

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}
