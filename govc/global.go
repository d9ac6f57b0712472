package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A package-level variable that nothing but its package's initialisation writes, and whose address
// goes nowhere, keeps its initial value: loads of it are replaced by that value. The scan covers every
// function of the packages loaded from source.

type globalInfo struct {
	ok  bool
	val Val
	typ types.Type
}

func (ex *Exec) globalConst(l Loc) (Val, bool) {
	if l.cell != 0 || l.base == nil || l.base.op != "var" || !strings.HasPrefix(l.root, "G:") || l.elem {
		return nil, false
	}
	gi := ex.globalVal(strings.TrimPrefix(l.root, "G:"))
	if gi == nil || !gi.ok {
		return nil, false
	}
	v, t := gi.val, gi.typ
	for _, p := range l.path {
		v, t = ex.project(v, t, p)
	}
	return v, true
}

func (ex *Exec) globalVal(name string) *globalInfo {
	ex.ld.mu.Lock()
	if ex.ld.globals == nil {
		ex.ld.scanGlobals()
	}
	g := ex.ld.globals[name]
	ex.ld.mu.Unlock()
	if g == nil {
		return nil
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if gi, ok := ex.globals[name]; ok {
		return gi
	}
	gi := ex.initialValue(g)
	if ex.globals == nil {
		ex.globals = map[string]*globalInfo{}
	}
	ex.globals[name] = gi
	return gi
}

// scanGlobals finds the variables that only their package's init function writes.
func (ld *Loader) scanGlobals() {
	ld.globals = map[string]*ssa.Global{}
	bad := map[*ssa.Global]bool{}
	var onlyLoaded func(v ssa.Value) bool
	onlyLoaded = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return false
				}
			case *ssa.IndexAddr:
				if !onlyLoaded(x) {
					return false
				}
			case *ssa.FieldAddr:
				if !onlyLoaded(x) {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	seen := map[*ssa.Function]bool{}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		own := f.Synthetic == "package initializer"
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || own && g.Pkg == f.Pkg {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if x.Op != token.MUL {
							bad[g] = true
						}
					case *ssa.IndexAddr:
						if !onlyLoaded(x) {
							bad[g] = true
						}
					case *ssa.FieldAddr:
						if !onlyLoaded(x) {
							bad[g] = true
						}
					case *ssa.DebugRef:
					default:
						bad[g] = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	for _, p := range ld.pkgs {
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok {
				scan(f)
			}
			if t, ok := m.(*ssa.Type); ok {
				if n, ok := t.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						scan(ld.prog.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	for _, p := range ld.pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && !bad[g] {
				ld.globals[g.RelString(nil)] = g
			}
		}
	}
}

// initialValue evaluates the stores the package initializer makes to g.
func (ex *Exec) initialValue(g *ssa.Global) (gi *globalInfo) {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	gi = &globalInfo{typ: t}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); !ok {
				panic(r)
			}
			gi.ok = false
		}
	}()
	f := g.Pkg.Func("init")
	if f == nil {
		return
	}
	if _, isFn := t.Underlying().(*types.Signature); !isFn && isScalar(t) {
		if _, isErr := t.Underlying().(*types.Interface); !isErr {
			if _, basic := t.Underlying().(*types.Basic); !basic {
				return
			}
		}
	}
	v := ex.zero(t)
	stores := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			uses := false
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(g) {
					uses = true
				}
			}
			if !uses {
				continue
			}
			switch x := in.(type) {
			case *ssa.Store:
				if x.Addr != ssa.Value(g) {
					return
				}
				v = ex.initOperand(g, x.Val)
				stores++
			case *ssa.IndexAddr:
				c, ok := x.Index.(*ssa.Const)
				if !ok || len(*x.Referrers()) != 1 {
					return
				}
				s, ok := (*x.Referrers())[0].(*ssa.Store)
				if !ok || s.Addr != ssa.Value(x) {
					return
				}
				v = ex.update(v, []PE{{idx: ex.idx(c.Int64())}}, ex.initOperand(g, s.Val))
				stores++
			case *ssa.UnOp:
				// read by another initialiser
			default:
				return
			}
		}
	}
	if stores == 0 {
		return
	}
	gi.val, gi.ok = v, true
	return
}

func (ex *Exec) initOperand(g *ssa.Global, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x, x.Type())
	case *ssa.Function:
		f := &FuncV{fn: x, sig: x.Signature}
		ex.fnTerms[f.term()] = f
		return f
	case *ssa.ChangeType:
		return ex.initOperand(g, x.X)
	case *ssa.UnOp: // a temporary the initialiser filled
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			return ex.initAlloc(g, a)
		}
	case *ssa.Call:
		if fn, ok := x.Call.Value.(*ssa.Function); ok {
			switch fn.String() {
			case "errors.New", "fmt.Errorf": // a new error, different from every other
				e := Var("err:"+g.RelString(nil), SIface)
				addVarAxiom(e, And(Not(Eq(e, nilIface)), Eq(UF("sentinel", SInt, e), typeIDOf("err "+g.RelString(nil)))))
				return e
			}
		}
	}
	panic(unsupported("initial value of %s", g))
}

func (ex *Exec) initAlloc(g *ssa.Global, a *ssa.Alloc) Val {
	t := a.Type().Underlying().(*types.Pointer).Elem()
	v := ex.zero(t)
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
		case *ssa.IndexAddr:
			c, ok := x.Index.(*ssa.Const)
			if !ok {
				panic(unsupported("initial value of %s", g))
			}
			for _, q := range *x.Referrers() {
				s, ok := q.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(x) {
					panic(unsupported("initial value of %s", g))
				}
				v = ex.update(v, []PE{{idx: ex.idx(c.Int64())}}, ex.initOperand(g, s.Val))
			}
		default:
			panic(unsupported("initial value of %s", g))
		}
	}
	return v
}

// fnCases splits the call of a function chosen from a constant table into the calls of its entries.
func (ex *Exec) fnCases(st *State, ins ssa.Instruction, c *ssa.CallCommon, t *Term, args []Val, k Kont) bool {
	if t.op != "select" {
		return false
	}
	var fs []*FuncV
	a := t.args[0]
	for ; a.op == "store"; a = a.args[0] {
		f, ok := ex.fnTerms[a.args[2]]
		if !ok || f.fn == nil {
			return false
		}
		fs = append(fs, f)
	}
	if len(fs) == 0 {
		return false
	}
	var next func(st *State, i int)
	next = func(st *State, i int) {
		if i == len(fs) {
			ex.check(st, Not(Eq(t, nilFn)), "panic-freedom", "call of nil function", ex.posOf(ins))
			sig := st.top().tsub.apply(c.Signature()).(*types.Signature)
			ex.unknownCall(st, t, sig, args, ins, k)
			return
		}
		ex.split(st, Eq(t, fs[i].term()), "callee "+fs[i].fn.Name(), func(s *State) {
			ex.callFn(s, ins, fs[i], args, k)
		}, func(s *State) { next(s, i+1) })
	}
	next(st, 0)
	return true
}
