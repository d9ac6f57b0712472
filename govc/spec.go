package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------- contract files ----------

type Clause struct {
	label  string
	expr   ast.Expr
	src    string
	pos    string
	induct []ast.Expr
}

type MetaVar struct {
	name string
	typ  ast.Expr

	plain, moving, fixed bool
}

type LoopT struct {
	metas []MetaVar
	c     Clause
}

type SetC struct {
	lhs, rhs ast.Expr
	src      string
}

type Contract struct {
	key      string
	pkg      string
	params   []string
	results  []string
	props    []string
	requires []Clause
	ensures  []Clause
	onpanic  []Clause
	sections []Clause // what every critical section does
	tally    []Clause // summed up over the critical sections
	rely     []Clause // assumed on taking the lock
	follow   []Clause // what has happened by the next critical section
	thenGo   bool     // the contract is about the goroutine the function starts
	sets     []SetC
	modifies []Clause
	allocs   []ast.Expr
	loops    []LoopT
	decr     []LoopT
	given    []MetaVar
	inst     []map[string]string
	pure     []string
	bv       bool
	mayPanic bool
	partial  bool // termination not claimed
	extern   bool
	invoke   bool
	inline   map[string]bool
	noinline map[string]bool
	pos      string
	notes    []string
	hides    []string
	uses     []string
	splits   []Clause
	asserts  []Clause
	lemma    *Lemma
	reads    []Clause
	calls    map[string]bool
	then     bool     // the contract speaks of the function returned, called with thenParams
	thenFn   ast.Expr // which function, if not the result; thenArgs are then given variables
	thenArgs []string
	thenRes  []string
}

type Lemma struct {
	vars    []MetaVar
	trigger []ast.Expr // the lemma may be used wherever these terms occur
	idx     int
}

type Pred struct {
	pkg    string
	params []string
	body   ast.Expr
	src    string
}

type FunDecl struct {
	pkg  string
	args []ast.Expr
	ret  ast.Expr
}

type GhostField struct {
	name string
	typ  ast.Expr
	pkg  string
}

type Guard struct {
	pkg   string
	lock  string   // Type.field
	state []string // Type.field or contents(Type.field)
	inv   *Pred
}

type SpecDB struct {
	ld        *Loader
	contracts map[string]*Contract
	order     []*Contract
	preds     map[string]*Pred
	funs      map[string]*FunDecl
	axioms    []Clause
	axiomPkg  []string
	lemmas    []*Contract
	axVars    [][]MetaVar
	ghosts    map[string][]GhostField // typeKey -> fields
	guards    []*Guard
	sorts     map[string]bool
	errs      []string
	mu        sync.Mutex
	axDone    map[string]bool
	immutable map[string]bool
}

func (db *SpecDB) ghostsOf(t types.Type) ([]GhostField, bool) {
	g, ok := db.ghosts[typeKey(t)]
	return g, ok
}

var kwRe = regexp.MustCompile(`^(package|dep|ghost|pred|fun|axiom|lemma|func|extern|invoke|prop|requires|ensures|onpanic|set|modifies|allocs|loop|decreases|given|inst|pure|ints|mayPanic|partial|inline|noinline|note|guard|sort|split|then|assert|induct|immutable|trigger|uses|section|tally|rely|after)\b`)

func LoadSpecs(ld *Loader, dir string) (*SpecDB, error) {
	db := &SpecDB{ld: ld, contracts: map[string]*Contract{}, preds: map[string]*Pred{}, funs: map[string]*FunDecl{},
		ghosts: map[string][]GhostField{}, sorts: map[string]bool{}, axDone: map[string]bool{}, immutable: map[string]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	for _, f := range files {
		if err := db.loadFile(f); err != nil {
			return nil, err
		}
	}
	return db, nil
}

func stripComment(l string) string {
	inS := false
	for i := 0; i+1 < len(l); i++ {
		if l[i] == '"' {
			inS = !inS
		}
		if !inS && l[i] == '/' && l[i+1] == '/' {
			return l[:i]
		}
	}
	return l
}

func (db *SpecDB) loadFile(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type item struct {
		txt string
		ln  int
	}
	var items []item
	for i, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(stripComment(l))
		if l == "" {
			continue
		}
		if kwRe.MatchString(l) {
			items = append(items, item{l, i + 1})
		} else if len(items) > 0 {
			items[len(items)-1].txt += " " + l
		} else {
			return fmt.Errorf("%s:%d: stray text", file, i+1)
		}
	}
	pkg := ""
	var cur *Contract
	base := filepath.Base(file)
	for _, it := range items {
		pos := fmt.Sprintf("%s:%d", base, it.ln)
		fail := func(f string, a ...any) error { return fmt.Errorf("%s: %s: in %q", pos, fmt.Sprintf(f, a...), it.txt) }
		kw := kwRe.FindString(it.txt)
		rest := strings.TrimSpace(it.txt[len(kw):])
		parse := func(s string) (ast.Expr, error) {
			e, err := parser.ParseExpr(s)
			if err != nil {
				return nil, fail("%v", err)
			}
			return e, nil
		}
		label := ""
		if strings.HasPrefix(rest, "[") && (kw == "requires" || kw == "ensures" || kw == "onpanic" || kw == "assert" || kw == "induct") {
			j := strings.Index(rest, "]")
			label = rest[1:j]
			rest = strings.TrimSpace(rest[j+1:])
		}
		parseMetas := func(s string) ([]MetaVar, error) {
			var ms []MetaVar
			if strings.TrimSpace(s) == "" {
				return nil, nil
			}
			for _, p := range splitTop(s, ',') {
				p = strings.TrimSpace(p)
				k := strings.IndexByte(p, ' ')
				if k < 0 {
					return nil, fail("bad meta %q", p)
				}
				// "plain": the variable itself, not its successor; "moving": a variable the loop assigns; "fixed": one it does not
				mv := MetaVar{name: p[:k]}
				ty := strings.TrimSpace(p[k+1:])
				for _, w := range []struct {
					s string
					f *bool
				}{{"plain", &mv.plain}, {"moving", &mv.moving}, {"fixed", &mv.fixed}} {
					if t := strings.TrimSuffix(ty, " "+w.s); t != ty {
						ty, *w.f = strings.TrimSpace(t), true
					}
				}
				for _, w := range []string{"plain", "moving", "fixed"} {
					if strings.HasSuffix(ty, " "+w) {
						return nil, fail("modifiers of %q out of order (moving, then plain)", p)
					}
				}
				e, err := parse(ty)
				if err != nil {
					return nil, err
				}
				mv.typ = e
				ms = append(ms, mv)
			}
			return ms, nil
		}
		switch kw {
		case "package", "dep":
			pkg = rest
			cur = nil
			continue
		case "sort":
			db.sorts[rest] = true
			continue
		case "immutable":
			for _, p := range strings.Split(rest, ",") {
				db.immutable[pkg+"."+strings.TrimSpace(p)] = true
			}
			continue
		case "ghost":
			k := strings.IndexByte(rest, ' ')
			tf := strings.SplitN(rest[:k], ".", 2)
			e, err := parse(rest[k+1:])
			if err != nil {
				return err
			}
			key := lastTwo(pkg) + "." + tf[0]
			db.ghosts[key] = append(db.ghosts[key], GhostField{tf[1], e, pkg})
			continue
		case "pred":
			k := strings.Index(rest, ":=")
			name, ps := headerNames(rest[:k])
			e, err := parse(rest[k+2:])
			if err != nil {
				return err
			}
			db.preds[pkg+"."+name] = &Pred{pkg, ps, e, rest}
			continue
		case "fun":
			e, err := parse("func " + rest[strings.Index(rest, "("):])
			if err != nil {
				return err
			}
			ft := e.(*ast.FuncType)
			fd := &FunDecl{pkg: pkg}
			for _, p := range ft.Params.List {
				n := len(p.Names)
				if n == 0 {
					n = 1
				}
				for ; n > 0; n-- {
					fd.args = append(fd.args, p.Type)
				}
			}
			fd.ret = ft.Results.List[0].Type
			db.funs[strings.TrimSpace(rest[:strings.Index(rest, "(")])] = fd
			continue
		case "axiom":
			k := strings.Index(rest, ":")
			e, err := parse(rest[k+1:])
			if err != nil {
				return err
			}
			db.axioms = append(db.axioms, Clause{label: strings.TrimSpace(rest[:k]), expr: e, src: rest, pos: pos})
			db.axiomPkg = append(db.axiomPkg, pkg)
			continue
		case "guard":
			// guard Map.mtx: Map.m, contents(Map.m)
			k := strings.Index(rest, ":")
			g := &Guard{pkg: pkg, lock: strings.TrimSpace(rest[:k])}
			tail := rest[k+1:]
			if j := strings.Index(tail, " inv "); j >= 0 {
				inv := tail[j+5:]
				tail = tail[:j]
				q := strings.Index(inv, ":=")
				_, ps := headerNames(inv[:q])
				e, err := parse(inv[q+2:])
				if err != nil {
					return err
				}
				g.inv = &Pred{pkg, ps, e, inv}
			}
			for _, p := range strings.Split(tail, ",") {
				if strings.TrimSpace(p) != "" {
					g.state = append(g.state, strings.TrimSpace(p))
				}
			}
			db.guards = append(db.guards, g)
			continue
		case "func", "extern", "invoke", "lemma":
			cur = &Contract{pkg: pkg, pos: pos, inline: map[string]bool{}, noinline: map[string]bool{}, calls: map[string]bool{}}
			cur.extern = kw == "extern"
			cur.invoke = kw == "invoke"
			if kw == "lemma" {
				k := strings.Index(rest, "(")
				ms, err := parseMetas(rest[k+1 : strings.LastIndex(rest, ")")])
				if err != nil {
					return err
				}
				cur.lemma = &Lemma{vars: ms, idx: len(db.lemmas)}
				db.lemmas = append(db.lemmas, cur)
				cur.key = "lemma " + strings.TrimSpace(rest[:k])
				db.order = append(db.order, cur)
				continue
			}
			h := rest
			// results
			depth := 0
			var groups []string
			st := -1
			for i := 0; i < len(h); i++ {
				if h[i] == '(' {
					if depth == 0 {
						st = i
					}
					depth++
				} else if h[i] == ')' {
					depth--
					if depth == 0 {
						groups = append(groups, h[st:i+1])
					}
				}
			}
			name := h
			gi := 0
			recvGroup := false
			if strings.HasPrefix(h, "(") || strings.Contains(h[:strings.Index(h, "(")+1], ".(") {
				recvGroup = true
			}
			if recvGroup {
				gi = 1
			}
			if len(groups) <= gi {
				return fail("bad function header")
			}
			idx := strings.Index(h, groups[gi])
			if recvGroup {
				first := strings.Index(h, groups[0])
				idx = first + len(groups[0]) + strings.Index(h[first+len(groups[0]):], groups[gi])
			}
			name = strings.TrimSpace(h[:idx])
			cur.params = namesOf(groups[gi])
			if len(groups) > gi+1 {
				cur.results = namesOf(groups[gi+1])
			}
			if kw == "func" {
				name = pkg + "." + name
			}
			cur.key = name
			if _, dup := db.contracts[name]; dup {
				return fail("duplicate contract for %s", name)
			}
			db.contracts[name] = cur
			db.order = append(db.order, cur)
			continue
		}
		if cur == nil {
			return fail("clause outside a contract")
		}
		mkc := func(s string) (Clause, error) {
			e, err := parse(s)
			if err != nil {
				return Clause{}, err
			}
			return Clause{label: label, expr: e, src: s, pos: pos}, nil
		}
		switch kw {
		case "prop":
			cur.props = append(cur.props, strings.Fields(strings.ReplaceAll(rest, ",", " "))...)
		case "then":
			z := strings.Index(rest, "(")
			a := strings.Index(rest, ")")
			cur.then = true
			if strings.HasPrefix(rest, "go ") || strings.HasPrefix(rest, "go(") {
				cur.thenGo = true
				break
			}
			if f := strings.TrimSpace(rest[:z]); f != "" {
				e, err := parse(f)
				if err != nil {
					return err
				}
				cur.thenFn = e
			}
			cur.thenArgs = namesOf(rest[z : a+1])
			if b := strings.TrimSpace(rest[a+1:]); b != "" {
				cur.thenRes = namesOf(b)
			}
		case "requires", "ensures", "onpanic", "modifies", "split", "assert", "section", "tally", "rely", "after":
			parts := []string{rest}
			if kw == "modifies" {
				parts = splitTop(rest, ',')
			}
			for _, p := range parts {
				c, err := mkc(strings.TrimSpace(p))
				if err != nil {
					return err
				}
				switch kw {
				case "requires":
					cur.requires = append(cur.requires, c)
				case "ensures":
					cur.ensures = append(cur.ensures, c)
				case "section":
					cur.sections = append(cur.sections, c)
				case "after":
					cur.follow = append(cur.follow, c)
				case "tally":
					cur.tally = append(cur.tally, c)
				case "rely":
					cur.rely = append(cur.rely, c)
				case "onpanic":
					cur.onpanic = append(cur.onpanic, c)
				case "modifies":
					cur.modifies = append(cur.modifies, c)
				case "split":
					cur.splits = append(cur.splits, c)
				case "assert":
					cur.asserts = append(cur.asserts, c)
				}
			}
		case "trigger":
			if cur == nil || cur.lemma == nil {
				return fail("trigger belongs to a lemma")
			}
			e, err := parse("trig(" + rest + ")")
			if err != nil {
				return err
			}
			cur.lemma.trigger = append(cur.lemma.trigger, e)
		case "induct": // induct int(k), lo, hi, P: P(lo) and the step prove P for lo..hi
			ps := splitTop(rest, ',')
			if len(ps) < 4 {
				return fail("induct needs a binder, two bounds and a body")
			}
			c := Clause{label: label, src: rest, pos: pos}
			for i, p := range []string{ps[0], ps[1], ps[2], strings.Join(ps[3:], ",")} {
				e, err := parse(strings.TrimSpace(p))
				if err != nil {
					return err
				}
				if i < 3 {
					c.induct = append(c.induct, e)
				} else {
					c.expr = e
				}
			}
			cur.asserts = append(cur.asserts, c)
		case "set":
			k := strings.Index(rest, ":=")
			l, err := parse(rest[:k])
			if err != nil {
				return err
			}
			r, err := parse(rest[k+2:])
			if err != nil {
				return err
			}
			cur.sets = append(cur.sets, SetC{l, r, rest})
		case "allocs":
			for _, p := range splitTop(rest, ',') {
				e, err := parse(strings.TrimSpace(p))
				if err != nil {
					return err
				}
				cur.allocs = append(cur.allocs, e)
			}
		case "loop", "decreases":
			var lt LoopT
			if strings.HasPrefix(rest, "[") {
				d := 0
				j := 0
				for ; j < len(rest); j++ {
					if rest[j] == '[' {
						d++
					}
					if rest[j] == ']' {
						d--
						if d == 0 {
							break
						}
					}
				}
				ms, err := parseMetas(rest[1:j])
				if err != nil {
					return err
				}
				lt.metas = ms
				rest = strings.TrimSpace(rest[j+1:])
			}
			c, err := mkc(rest)
			if err != nil {
				return err
			}
			lt.c = c
			if kw == "loop" {
				cur.loops = append(cur.loops, lt)
			} else {
				cur.decr = append(cur.decr, lt)
			}
		case "given":
			ms, err := parseMetas(rest)
			if err != nil {
				return err
			}
			cur.given = append(cur.given, ms...)
		case "inst":
			m := map[string]string{}
			for _, p := range strings.Fields(strings.ReplaceAll(rest, ",", " ")) {
				kv := strings.SplitN(p, "=", 2)
				m[kv[0]] = kv[1]
			}
			cur.inst = append(cur.inst, m)
		case "pure":
			cur.pure = append(cur.pure, strings.Fields(strings.ReplaceAll(rest, ",", " "))...)
		case "ints":
			cur.bv = rest == "bv"
		case "mayPanic":
			cur.mayPanic = true
		case "uses": // only these lemmas serve as axioms here
			cur.uses = append(append(cur.uses, strings.Fields(rest)...), "-")
		case "partial":
			cur.partial = true
			if rest != "" {
				cur.notes = append(cur.notes, "termination not claimed: "+rest)
			}
		case "inline":
			for _, p := range strings.Fields(rest) {
				cur.inline[p] = true
			}
		case "noinline":
			for _, p := range strings.Fields(rest) {
				cur.noinline[p] = true
			}
		case "note":
			cur.notes = append(cur.notes, rest)
		}
	}
	return nil
}

func lastTwo(p string) string {
	parts := strings.Split(modPath+"/"+p, "/")
	if len(parts) > 2 {
		parts = parts[len(parts)-2:]
	}
	return strings.Join(parts, "/")
}

func splitTop(s string, sep byte) []string {
	var out []string
	d := 0
	st := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case sep:
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

func headerNames(h string) (string, []string) {
	k := strings.Index(h, "(")
	return strings.TrimSpace(h[:k]), namesOf(h[k:])
}
func namesOf(g string) []string {
	g = strings.TrimSpace(g)
	g = strings.TrimSuffix(strings.TrimPrefix(g, "("), ")")
	var out []string
	for _, p := range strings.Split(g, ",") {
		if p = strings.TrimSpace(p); p != "" {
			out = append(out, p)
		}
	}
	return out
}

// ---------- evaluation ----------

// SV is a specification value.
type SV struct {
	v Val
	t types.Type
}

type ectx struct {
	ex      *Exec
	db      *SpecDB
	pkg     string
	cur     *Snap
	old     *Snap
	pre     *Snap
	acq     *Snap
	rng     *ranged
	rel     *Snap
	vars    map[string]SV
	cells   map[string]cellRef
	tenv    map[string]types.Type
	targs   []types.Type
	depth   int
	binders []*Term
	wit     []*Term
}

type cellRef struct {
	id   int
	inc  int64
	hold *Snap
	ptr  bool // the variable behind the address in the cell
}

func (c *ectx) with(name string, v SV) *ectx {
	n := *c
	n.vars = map[string]SV{}
	for k, x := range c.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

func (c *ectx) at(s *Snap) *ectx {
	if s == nil {
		panic(unsupported("no such state in this context"))
	}
	n := *c
	n.cur = s
	return &n
}

type specErr struct{ msg string }

func serr(f string, a ...any) specErr { return specErr{fmt.Sprintf(f, a...)} }

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (c *ectx) typ(e ast.Expr) types.Type {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.typ(x.X)
	case *ast.Ident:
		if t, ok := c.tenv[x.Name]; ok {
			return t
		}
		switch x.Name {
		case "Math":
			return &gsort{"Math"}
		case "ref":
			return types.Typ[types.UnsafePointer]
		case "fn":
			return &gsort{"Fn"}
		case "Iface":
			return types.NewInterfaceType(nil, nil)
		}
		if c.db.sorts[x.Name] {
			return &gsort{x.Name}
		}
		if p := c.db.ld.tpkg(c.pkg); p != nil {
			if o := p.Scope().Lookup(x.Name); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return c.inst(tn.Type())
				}
			}
		}
		if o := types.Universe.Lookup(x.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
	case *ast.StarExpr:
		return types.NewPointer(c.typ(x.X))
	case *ast.ArrayType:
		if x.Len == nil {
			return types.NewSlice(c.typ(x.Elt))
		}
		n := c.eval(x.Len)
		return types.NewArray(c.typ(x.Elt), n.v.(*Term).num.Int64())
	case *ast.MapType:
		return types.NewMap(c.typ(x.Key), c.typ(x.Value))
	case *ast.ChanType:
		dir := types.SendRecv
		switch x.Dir {
		case ast.SEND:
			dir = types.SendOnly
		case ast.RECV:
			dir = types.RecvOnly
		}
		return types.NewChan(dir, c.typ(x.Value))
	case *ast.IndexExpr: // a generic type with one argument
		if n, ok := c.typ(x.X).(*types.Named); ok {
			t, err := types.Instantiate(nil, n.Origin(), []types.Type{c.typ(x.Index)}, false)
			if err == nil {
				return t
			}
		}
	case *ast.IndexListExpr:
		if id, ok := x.X.(*ast.Ident); ok && id.Name == "gmap" {
			return &gmap{c.typ(x.Indices[0]), c.typ(x.Indices[1])}
		}
		if n, ok := c.typ(x.X).(*types.Named); ok {
			var as []types.Type
			for _, a := range x.Indices {
				as = append(as, c.typ(a))
			}
			t, err := types.Instantiate(nil, n.Origin(), as, false)
			if err == nil {
				return t
			}
		}
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.FuncType:
		tuple := func(fl *ast.FieldList) *types.Tuple {
			var vs []*types.Var
			if fl != nil {
				for _, f := range fl.List {
					vs = append(vs, types.NewVar(0, nil, "", c.typ(f.Type)))
				}
			}
			return types.NewTuple(vs...)
		}
		return types.NewSignatureType(nil, nil, nil, tuple(x.Params), tuple(x.Results), false)
	case *ast.StructType:
		if x.Fields.NumFields() == 0 {
			return types.NewStruct(nil, nil)
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			for path, p := range c.db.ld.tpkgs {
				if p.Name() == id.Name || path == id.Name {
					if o := p.Scope().Lookup(x.Sel.Name); o != nil {
						if tn, ok := o.(*types.TypeName); ok {
							return c.inst(tn.Type())
						}
					}
				}
			}
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "gmap" {
			return &gmap{c.typ(x.Args[0]), c.typ(x.Args[1])}
		}
	}
	panic(serr("unknown type %s", exprStr(e)))
}

func (c *ectx) inst(t types.Type) types.Type {
	n, ok := t.(*types.Named)
	if !ok || n.TypeParams() == nil || n.TypeParams().Len() == 0 || n.TypeArgs().Len() > 0 {
		return t
	}
	var args []types.Type
	for i := 0; i < n.TypeParams().Len(); i++ {
		if a, ok := c.tenv[n.TypeParams().At(i).Obj().Name()]; ok {
			args = append(args, a)
		} else if i < len(c.targs) {
			args = append(args, c.targs[i])
		} else {
			panic(serr("cannot instantiate %s", t))
		}
	}
	r, err := types.Instantiate(nil, n, args, false)
	if err != nil {
		panic(serr("%v", err))
	}
	return r
}

func (ld *Loader) tpkg(rel string) *types.Package {
	if p, ok := ld.tpkgs[modPath+"/"+rel]; ok {
		return p
	}
	return ld.tpkgs[rel]
}

func (c *ectx) term(e ast.Expr) *Term {
	sv := c.eval(e)
	return c.asTerm(sv, e)
}
func (c *ectx) asTerm(sv SV, e ast.Expr) *Term {
	switch x := sv.v.(type) {
	case *Term:
		return x
	case *FuncV:
		return x.term()
	case *PtrV:
		return c.ex.ty.flatten(x, sv.t)[0]
	case *StructV:
		ts := c.ex.ty.flatten(x, sv.t)
		if len(ts) == 1 {
			return ts[0]
		}
	}
	panic(serr("%s is not a scalar (%T)", exprStr(e), sv.v))
}

func (c *ectx) boolean(e ast.Expr) *Term {
	t := c.term(e)
	if t.sort != SBool {
		panic(serr("%s is not a boolean", exprStr(e)))
	}
	return t
}

func untyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

// coerce makes an untyped constant take the type of its partner.
func (c *ectx) coerce(a SV, t types.Type) SV {
	tm, ok := a.v.(*Term)
	if !ok {
		return a
	}
	if tm == nilRef && a.t == types.Typ[types.UntypedNil] {
		switch u := t.Underlying().(type) {
		case *types.Interface:
			return SV{nilIface, t}
		case *types.Signature:
			return SV{nilFn, t}
		case *types.Slice:
			return SV{c.ex.zero(t), t}
		case *types.Pointer, *types.Map, *types.Chan:
			return SV{nilRef, t}
		default:
			_ = u
			return a
		}
	}
	if untyped(a.t) && tm.op == "num" {
		if w, _, ok := intType(t); ok {
			if c.ex.ty.bv {
				return SV{BV(tm.num, w), t}
			}
			return SV{tm, t}
		}
	}
	return a
}

func (c *ectx) snapGet(s *Snap, key string, srt Sort) *Term {
	k := key + "#" + string(srt)
	if t, ok := s.heap[k]; ok {
		return t
	}
	return c.ex.heapInit(k, srt)
}

func (c *ectx) loadLoc(l Loc) SV {
	if l.cell > 0 {
		v := c.cur.cells[l.cell]
		if v == nil {
			panic(serr("unknown cell"))
		}
		t := c.ex.cinfo[l.cell].typ
		for _, p := range l.path {
			v, t = c.ex.project(v, t, p)
		}
		return SV{v, t}
	}
	if v, ok := c.ex.globalConst(l); ok {
		return SV{c.ex.resolve(v, l.typ), l.typ}
	}
	key, idx := c.ex.locKey(l)
	var ts []*Term
	for _, lf := range c.ex.ty.leaves(l.typ) {
		s := lf.Sort
		if idx != nil || l.elem {
			s = ArraySort(c.ex.ty.idxSort(), s)
		}
		h := c.snapGet(c.cur, key+lf.Suf, ArraySort(SRef, s))
		v := Select(h, l.base)
		if l.elem {
			v = Select(v, l.idx)
		} else if idx != nil {
			v = Select(v, idx)
		}
		ts = append(ts, v)
	}
	v := c.ex.resolve(c.ex.ty.unflat(l.typ, ts), l.typ)
	if !l.ghost {
		c.ex.fact(v, l.typ)
	}
	return SV{v, l.typ}
}

// loc evaluates an addressable expression.
func (c *ectx) loc(e ast.Expr) (Loc, bool) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.loc(x.X)
	case *ast.StarExpr:
		sv := c.eval(x.X)
		if _, ok := sv.t.Underlying().(*types.Pointer); ok {
			return c.ex.toLoc(sv.v, sv.t), true
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if l, ok := c.globalLoc(id.Name, x.Sel.Name); ok {
				return l, true
			}
		}
		var l Loc
		if bl, ok := c.loc(x.X); ok {
			if _, isPtr := bl.typ.Underlying().(*types.Pointer); isPtr {
				sv := c.loadLoc(bl)
				l = c.ex.toLoc(sv.v, sv.t)
			} else {
				l = bl
			}
		} else {
			sv := c.eval(x.X)
			if _, isPtr := sv.t.Underlying().(*types.Pointer); !isPtr {
				return Loc{}, false
			}
			l = c.ex.toLoc(sv.v, sv.t)
		}
		ft := c.fieldType(l.typ, x.Sel.Name)
		if ft == nil {
			return Loc{}, false
		}
		l.path = append(l.path[:len(l.path):len(l.path)], PE{field: x.Sel.Name})
		if gs, ok := c.db.ghostsOf(l.typ); ok {
			for _, g := range gs {
				if g.name == x.Sel.Name {
					l.ghost = true
				}
			}
		}
		l.typ = ft
		return l, true
	case *ast.IndexExpr:
		if bl, ok := c.loc(x.X); ok {
			if at, ok := bl.typ.Underlying().(*types.Array); ok {
				i := c.index(x.Index)
				bl.path = append(bl.path[:len(bl.path):len(bl.path)], PE{idx: i})
				bl.typ = at.Elem()
				return bl, true
			}
		}
		sv := c.eval(x.X)
		if p, ok := sv.t.Underlying().(*types.Pointer); ok {
			if at, ok := p.Elem().Underlying().(*types.Array); ok {
				l := c.ex.toLoc(sv.v, sv.t)
				l.path = append(l.path[:len(l.path):len(l.path)], PE{idx: c.index(x.Index)})
				l.typ = at.Elem()
				return l, true
			}
		}
		if s, ok := sv.v.(*SliceV); ok {
			return Loc{base: s.ref, root: "[]" + typeKey(s.elem), elem: true, idx: c.ex.iadd(s.off, c.index(x.Index)), typ: s.elem}, true
		}
	case *ast.Ident:
		if _, ok := c.vars[x.Name]; ok {
			return Loc{}, false
		}
		if l, ok := c.globalLoc("", x.Name); ok {
			return l, true
		}
	}
	return Loc{}, false
}

func (c *ectx) globalLoc(pkg, name string) (Loc, bool) {
	if _, ok := c.vars[pkg]; ok && pkg != "" {
		return Loc{}, false
	}
	if _, ok := c.cells[pkg]; ok && pkg != "" {
		return Loc{}, false
	}
	var tp *types.Package
	if pkg == "" {
		tp = c.db.ld.tpkg(c.pkg)
	} else {
		for path, p := range c.db.ld.tpkgs {
			if p.Name() == pkg || path == pkg {
				if o := p.Scope().Lookup(name); o != nil {
					tp = p
				}
			}
		}
	}
	if tp == nil {
		return Loc{}, false
	}
	v, ok := tp.Scope().Lookup(name).(*types.Var)
	if !ok {
		return Loc{}, false
	}
	k := tp.Path() + "." + name
	return Loc{base: Var("global:"+k, SRef), root: "G:" + k, typ: v.Type()}, true
}

func (c *ectx) fieldType(t types.Type, f string) types.Type {
	for _, sf := range structFields(t) {
		if sf.n == f {
			return sf.t
		}
	}
	if gs, ok := c.db.ghostsOf(t); ok {
		for _, g := range gs {
			if g.name == f {
				// resolve in the struct's own type arguments
				n := *c
				n.pkg = g.pkg
				if nt, ok := types.Unalias(t).(*types.Named); ok && nt.TypeArgs() != nil {
					n.tenv = map[string]types.Type{}
					n.targs = nil
					for i := 0; i < nt.TypeArgs().Len(); i++ {
						n.tenv[nt.Origin().TypeParams().At(i).Obj().Name()] = nt.TypeArgs().At(i)
						n.targs = append(n.targs, nt.TypeArgs().At(i))
					}
				}
				return n.typ(g.typ)
			}
		}
	}
	return nil
}

func (c *ectx) index(e ast.Expr) *Term {
	sv := c.eval(e)
	if c.ex.ty.bv && untyped(sv.t) {
		return BV(sv.v.(*Term).num, 64)
	}
	return c.asTerm(sv, e)
}

var intT = types.Typ[types.Int]
var boolT = types.Typ[types.Bool]

func (c *ectx) lookupVar(name string) (SV, bool) {
	if cr, ok := c.cells[name]; ok {
		s := c.cur
		if cr.hold != nil {
			s = cr.hold
		}
		v := s.cells[cr.id]
		if v == nil {
			panic(serr("cell not available"))
		}
		t := c.ex.cinfo[cr.id].typ
		if cr.ptr {
			return c.at(s).loadLoc(c.ex.toLoc(v, t)), true
		}
		if cr.inc != 0 {
			one := Num(cr.inc)
			if c.ex.ty.bv {
				w, _, _ := intType(t)
				one = BV(one.num, w)
			}
			v = c.ex.iadd(v.(*Term), one)
		}
		return SV{c.ex.resolve(v, t), t}, true
	}
	if sv, ok := c.vars[name]; ok {
		return sv, true
	}
	return SV{}, false
}

func (c *ectx) eval(e ast.Expr) SV {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.eval(x.X)
	case *ast.Ident:
		switch x.Name {
		case "true":
			return SV{tTrue, boolT}
		case "false":
			return SV{tFalse, boolT}
		case "nil":
			return SV{nilRef, types.Typ[types.UntypedNil]}
		}
		if sv, ok := c.lookupVar(x.Name); ok {
			return sv
		}
		if p := c.db.ld.tpkg(c.pkg); p != nil {
			if o := p.Scope().Lookup(x.Name); o != nil {
				switch o := o.(type) {
				case *types.Const:
					return c.constant(o.Val(), o.Type())
				case *types.Var:
					l, _ := c.globalLoc("", x.Name)
					return c.loadLoc(l)
				case *types.Func:
					if f := c.db.ld.prog.FuncValue(o); f != nil {
						return SV{&FuncV{fn: f, sig: f.Signature}, o.Type()}
					}
				}
			}
		}
		panic(serr("unknown name %s", x.Name))
	case *ast.BasicLit:
		v := constant.MakeFromLiteral(x.Value, x.Kind, 0)
		switch x.Kind {
		case token.INT:
			return c.constant(v, types.Typ[types.UntypedInt])
		case token.CHAR:
			return c.constant(v, types.Typ[types.UntypedInt])
		case token.STRING:
			return SV{c.ex.strConst(constant.StringVal(v)), types.Typ[types.String]}
		}
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return SV{Not(c.boolean(x.X)), boolT}
		case token.SUB:
			a := c.eval(x.X)
			t := a.v.(*Term)
			if isBV(t.sort) {
				return SV{mk("bvneg", t.sort, t), a.t}
			}
			return SV{Sub(Num(0), t), a.t}
		case token.AND:
			if l, ok := c.loc(x.X); ok {
				return SV{&PtrV{l}, types.NewPointer(l.typ)}
			}
		case token.XOR:
			a := c.eval(x.X)
			t := a.v.(*Term)
			return SV{mk("bvnot", t.sort, t), a.t}
		}
	case *ast.BinaryExpr:
		return c.binary(x)
	case *ast.StarExpr, *ast.SelectorExpr:
		if se, ok := e.(*ast.SelectorExpr); ok {
			if id, ok := se.X.(*ast.Ident); ok {
				if _, isVar := c.lookupVar(id.Name); !isVar {
					for path, p := range c.db.ld.tpkgs {
						if p.Name() == id.Name || path == id.Name {
							if o, ok := p.Scope().Lookup(se.Sel.Name).(*types.Const); ok {
								return c.constant(o.Val(), o.Type())
							}
						}
					}
				}
			}
		}
		if l, ok := c.loc(e); ok {
			return c.loadLoc(l)
		}
		if se, ok := e.(*ast.SelectorExpr); ok {
			sv := c.eval(se.X)
			if s, ok := sv.v.(*StructV); ok {
				v, t := c.ex.project(s, sv.t, PE{field: se.Sel.Name})
				return SV{v, t}
			}
			panic(serr("no field %s in %s (%s)", se.Sel.Name, sv.t, exprStr(e)))
		}
	case *ast.IndexExpr:
		if l, ok := c.loc(e); ok {
			return c.loadLoc(l)
		}
		sv := c.eval(x.X)
		switch v := sv.v.(type) {
		case *ArrV:
			r, t := c.ex.project(v, nil, PE{idx: c.index(x.Index)})
			return SV{r, t}
		case *Term:
			switch t := sv.t.Underlying().(type) {
			case *gmap:
				ix := c.coerce(c.eval(x.Index), t.k)
				return SV{Select(v, c.asTerm(ix, x.Index)), t.v}
			case *types.Map:
				k := c.asTerm(c.coerce(c.eval(x.Index), t.Key()), x.Index)
				return c.mapVal(v, t, k)
			case *types.Basic:
				if v.sort == SStr {
					return SV{UF("strat", SInt, v, c.index(x.Index)), types.Typ[types.Uint8]}
				}
			}
		}
		panic(serr("cannot index %s", exprStr(x.X)))
	case *ast.CallExpr:
		return c.callExpr(x)
	}
	panic(serr("unsupported specification expression %s", exprStr(e)))
}

func (c *ectx) constant(v constant.Value, t types.Type) SV {
	if _, _, ok := intType(t); ok || v.Kind() == constant.Int {
		bi := bigOf(v)
		if c.ex.ty.bv && !untyped(t) {
			w, _, _ := intType(t)
			return SV{BV(bi, w), t}
		}
		return SV{NumBig(bi), t}
	}
	switch v.Kind() {
	case constant.Bool:
		return SV{Bool(constant.BoolVal(v)), t}
	case constant.String:
		return SV{c.ex.strConst(constant.StringVal(v)), types.Typ[types.String]}
	}
	panic(serr("constant %s", v))
}

func (c *ectx) mapVal(m *Term, t *types.Map, k *Term) SV {
	var ts []*Term
	for _, lf := range c.ex.ty.leaves(t.Elem()) {
		h := c.snapGet(c.cur, mapKey(t)+".val"+lf.Suf, ArraySort(SRef, ArraySort(k.sort, lf.Sort)))
		ts = append(ts, Select(Select(h, m), k))
	}
	return SV{c.ex.ty.unflat(t.Elem(), ts), t.Elem()}
}

func (c *ectx) binary(x *ast.BinaryExpr) SV {
	switch x.Op {
	case token.LAND:
		return SV{And(c.boolean(x.X), c.boolean(x.Y)), boolT}
	case token.LOR:
		return SV{Or(c.boolean(x.X), c.boolean(x.Y)), boolT}
	}
	a, b := c.eval(x.X), c.eval(x.Y)
	a, b = c.coerce(a, b.t), c.coerce(b, a.t)
	switch x.Op {
	case token.EQL:
		return SV{c.equal(a, b, x), boolT}
	case token.NEQ:
		return SV{Not(c.equal(a, b, x)), boolT}
	}
	ta, tb := c.asTerm(a, x.X), c.asTerm(b, x.Y)
	if x.Op == token.SHL && ta.op == "num" && tb.op == "num" && untyped(a.t) {
		return SV{NumBig(new(big.Int).Lsh(ta.num, uint(tb.num.Int64()))), a.t}
	}
	rt := a.t
	if untyped(rt) {
		rt = b.t
	}
	if ta.sort != tb.sort && !(isBV(ta.sort) && isBV(tb.sort)) {
		panic(serr("operand sorts differ in %s: %s vs %s", exprStr(x), ta.sort, tb.sort))
	}
	if isBV(ta.sort) {
		_, signed, _ := intType(rt)
		s := func(p, q string) string {
			if signed {
				return p
			}
			return q
		}
		switch x.Op {
		case token.LSS:
			return SV{mk(s("bvslt", "bvult"), SBool, ta, tb), boolT}
		case token.LEQ:
			return SV{mk(s("bvsle", "bvule"), SBool, ta, tb), boolT}
		case token.GTR:
			return SV{mk(s("bvslt", "bvult"), SBool, tb, ta), boolT}
		case token.GEQ:
			return SV{mk(s("bvsle", "bvule"), SBool, tb, ta), boolT}
		}
		dummy := &State{mode: ModeDry}
		w, sg, _ := intType(rt)
		return SV{c.ex.bvBinop(dummy, x.Op, ta, tb, w, sg, b.t, nil), rt}
	}
	switch x.Op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if ta.sort == SInt {
			switch x.Op {
			case token.LSS:
				return SV{Lt(ta, tb), boolT}
			case token.GTR:
				return SV{Lt(tb, ta), boolT}
			case token.LEQ:
				return SV{Le(ta, tb), boolT}
			}
			return SV{Le(tb, ta), boolT}
		}
		return SV{c.ex.otherBinop(x.Op, ta, tb, rt), boolT}
	}
	if ta.sort != SInt {
		return SV{c.ex.otherBinop(x.Op, ta, tb, rt), rt}
	}
	mt := rt
	switch x.Op {
	case token.ADD:
		return SV{Add(ta, tb), mt}
	case token.SUB:
		return SV{Sub(ta, tb), mt}
	case token.MUL:
		return SV{Mul(ta, tb), mt}
	case token.QUO:
		return SV{EDiv(ta, tb), mt}
	case token.REM:
		return SV{EMod(ta, tb), mt}
	}
	panic(serr("operator %s", x.Op))
}

func (c *ectx) equal(a, b SV, x ast.Expr) *Term {
	if tm, ok := a.v.(*Term); ok {
		if tn, ok := b.v.(*Term); ok {
			if tm.sort != tn.sort {
				panic(serr("sorts differ in %s: %s vs %s", exprStr(x), tm.sort, tn.sort))
			}
			return Eq(tm, tn)
		}
	}
	if s, ok := a.v.(*SliceV); ok {
		if u, ok := b.v.(*SliceV); ok {
			if u.ref == nilRef {
				return Eq(s.ref, nilRef)
			}
			if s.ref == nilRef {
				return Eq(u.ref, nilRef)
			}
			return And(Eq(s.ref, u.ref), Eq(s.off, u.off), Eq(s.len, u.len), Eq(s.cap, u.cap))
		}
	}
	if f, ok := a.v.(*FuncV); ok {
		return Eq(f.term(), c.asTerm(b, x))
	}
	if f, ok := b.v.(*FuncV); ok {
		return Eq(c.asTerm(a, x), f.term())
	}
	if p, ok := a.v.(*PtrV); ok {
		if q, ok := b.v.(*PtrV); ok {
			return c.ex.locEq(p.loc, q.loc)
		}
	}
	fa, fb := c.ex.ty.flatten(a.v, a.t), c.ex.ty.flatten(b.v, b.t)
	if len(fa) != len(fb) {
		panic(serr("cannot compare %s", exprStr(x)))
	}
	var cs []*Term
	for i := range fa {
		cs = append(cs, Eq(fa[i], fb[i]))
	}
	return And(cs...)
}

func (ex *Exec) locEq(a, b Loc) *Term {
	if a.cell != b.cell || a.root != b.root || len(a.path) != len(b.path) {
		return tFalse
	}
	cs := []*Term{}
	if a.cell == 0 {
		cs = append(cs, Eq(a.base, b.base))
	}
	if a.elem {
		cs = append(cs, Eq(a.idx, b.idx))
	}
	for i := range a.path {
		if a.path[i].field != b.path[i].field {
			return tFalse
		}
		if a.path[i].idx != nil {
			cs = append(cs, Eq(a.path[i].idx, b.path[i].idx))
		}
	}
	return And(cs...)
}

// binder reads `type(name)` in a quantifier.
func (c *ectx) binder(e ast.Expr) (string, types.Type) {
	switch x := e.(type) {
	case *ast.CallExpr:
		if len(x.Args) == 1 {
			if id, ok := x.Args[0].(*ast.Ident); ok {
				return id.Name, c.typ(x.Fun)
			}
		}
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "bind" && len(x.Args) == 2 {
			return x.Args[1].(*ast.Ident).Name, c.typ(x.Args[0])
		}
	case *ast.StarExpr:
		n, t := c.binder(x.X)
		return n, types.NewPointer(t)
	}
	panic(serr("bad binder %s", exprStr(e)))
}

func (c *ectx) callExpr(x *ast.CallExpr) SV {
	ex := c.ex
	name := ""
	pk := ""
	switch f := x.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			pk, name = id.Name, f.Sel.Name
		}
	}
	if pk == "" {
		switch name {
		case "forall", "exists":
			n := c
			var bvs []*Term
			var ranges []*Term
			args := x.Args
			var pats [][]*Term
			for len(args) > 0 {
				if ce, ok := args[len(args)-1].(*ast.CallExpr); ok {
					if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "trig" {
						args = args[:len(args)-1]
						continue
					}
				}
				break
			}
			for _, b := range args[:len(args)-1] {
				nm, t := n.binder(b)
				ls := ex.ty.leaves(t)
				if len(ls) != 1 {
					panic(serr("quantifier over composite type %s", t))
				}
				bv := BVar(nm, ls[0].Sort)
				bvs = append(bvs, bv)
				// values of machine types are in range
				if bv.sort == SInt {
					if lo, hi := intRange(t); lo != nil {
						if w, _, _ := intType(t); w < 64 {
							ranges = append(ranges, Le(NumBig(lo), bv), Le(bv, NumBig(hi)))
						}
					}
				}
				n = n.with(nm, SV{bv, t})
			}
			body := n.boolean(args[len(args)-1])
			for _, a := range x.Args[len(args):] {
				var p []*Term
				for _, t := range a.(*ast.CallExpr).Args {
					p = append(p, n.term(t))
				}
				pats = append(pats, p)
			}
			if name == "forall" {
				if len(ranges) > 0 {
					body = Imp(And(ranges...), body)
				}
				return SV{Forall(bvs, body, pats...), boolT}
			}
			ex1 := Exists(bvs, And(append(ranges, body)...))
			// integer variables of the function as witnesses: the disjuncts follow from the whole
			if len(bvs) == 1 && len(ranges) == 0 && bvs[0].sort == SInt && len(c.wit) > 0 {
				or := []*Term{ex1}
				nm, t := c.binder(args[0])
				for _, w := range c.wit {
					or = append(or, c.with(nm, SV{w, t}).boolean(args[len(args)-1]))
				}
				ex1 = Or(or...)
			}
			return SV{ex1, boolT}
		case "lambda":
			nm, t := c.binder(x.Args[0])
			ls := ex.ty.leaves(t)
			bv := BVar(nm, ls[0].Sort)
			b := c.with(nm, SV{bv, t}).eval(x.Args[1])
			bt := c.asTerm(b, x.Args[1])
			return SV{lambdaTerm(bv, bt), &gmap{t, b.t}}
		case "least": // least(int(k), lo, hi, P): the least k in lo..hi with P, else hi+1 (for lo <= hi+1)
			nm, t := c.binder(x.Args[0])
			lo, hi := c.term(x.Args[1]), c.term(x.Args[2])
			bv := BVar(nm, SInt)
			body := c.with(nm, SV{bv, t}).boolean(x.Args[3])
			if hasFreeBvar(lo, nil) || hasFreeBvar(hi, nil) || hasFreeBvar(body, []*Term{bv}) {
				panic(serr("least depends on a bound variable"))
			}
			return SV{leastTerm(lo, hi, bv, body), t}
		case "imp":
			a := c.boolean(x.Args[0])
			if a == tFalse {
				return SV{tTrue, boolT}
			}
			return SV{Imp(a, c.boolean(x.Args[1])), boolT}
		case "iff":
			return SV{Eq(c.boolean(x.Args[0]), c.boolean(x.Args[1])), boolT}
		case "ite":
			cond := c.boolean(x.Args[0])
			a, b := c.eval(x.Args[1]), c.eval(x.Args[2])
			a, b = c.coerce(a, b.t), c.coerce(b, a.t)
			t := a.t
			if untyped(t) {
				t = b.t
			}
			fa, fb := ex.ty.flatten(a.v, a.t), ex.ty.flatten(b.v, b.t)
			var ts []*Term
			for i := range fa {
				ts = append(ts, Ite(cond, fa[i], fb[i]))
			}
			if len(ts) == 1 {
				return SV{ts[0], t}
			}
			return SV{ex.ty.unflat(t, ts), t}
		case "old":
			return c.at(c.old).eval(x.Args[0])
		case "pre":
			return c.at(c.pre).eval(x.Args[0])
		case "acq":
			return c.at(c.acq).eval(x.Args[0])
		case "rel":
			return c.at(c.rel).eval(x.Args[0])
		case "ranged", "rangepos": // ranged(i): the i-th key of the last completed range over a map; rangepos(k): its inverse
			if c.rng == nil {
				panic(serr("%s: no completed range over a map", name))
			}
			if name == "rangepos" {
				return SV{Select(c.rng.pos, c.term(x.Args[0])), intT}
			}
			return SV{c.ex.ty.unflat(c.rng.key, []*Term{Select(c.rng.order, c.term(x.Args[0]))}), c.rng.key}
		case "len", "cap":
			sv := c.eval(x.Args[0])
			switch v := sv.v.(type) {
			case *SliceV:
				if name == "cap" {
					return SV{v.cap, intT}
				}
				return SV{v.len, intT}
			case *ArrV:
				return SV{Num(v.n), intT}
			case *Term:
				if v.sort == SStr {
					return SV{UF("strlen", SInt, v), intT}
				}
				if mt, ok := sv.t.Underlying().(*types.Map); ok {
					h := c.snapGet(c.cur, mapKey(mt)+".card", ArraySort(SRef, SInt))
					return SV{Select(h, v), intT}
				}
			}
			panic(serr("len of %s", exprStr(x.Args[0])))
		case "dom":
			sv := c.eval(x.Args[0])
			mt := sv.t.Underlying().(*types.Map)
			k := c.asTerm(c.coerce(c.eval(x.Args[1]), mt.Key()), x.Args[1])
			h := c.snapGet(c.cur, mapKey(mt)+".dom", ArraySort(SRef, ArraySort(k.sort, SBool)))
			return SV{Select(Select(h, sv.v.(*Term)), k), boolT}
		case "ref":
			sv := c.eval(x.Args[0])
			if s, ok := sv.v.(*SliceV); ok {
				return SV{s.ref, types.Typ[types.UnsafePointer]}
			}
			return SV{c.asTerm(sv, x.Args[0]), types.Typ[types.UnsafePointer]}
		case "off":
			return SV{c.eval(x.Args[0]).v.(*SliceV).off, intT}
		case "arr": // arr(s): the whole backing array of s as a map from index to element
			v := c.eval(x.Args[0]).v.(*SliceV)
			ls := ex.ty.leaves(v.elem)
			if len(x.Args) > 1 { // arr(s, F): of the fields F of its elements
				id, ok := x.Args[1].(*ast.Ident)
				st, ok2 := v.elem.Underlying().(*types.Struct)
				if !ok || !ok2 {
					panic(serr("arr of a field of a struct"))
				}
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == id.Name && isScalar(st.Field(i).Type()) {
						for _, l := range ls {
							if strings.HasSuffix(l.Suf, "."+id.Name) {
								hs := ArraySort(SRef, ArraySort(ex.ty.idxSort(), l.Sort))
								return SV{Select(c.snapGet(c.cur, "[]"+typeKey(v.elem)+l.Suf, hs), v.ref), &gmap{intT, st.Field(i).Type()}}
							}
						}
					}
				}
				panic(serr("no scalar field %s", id.Name))
			}
			if len(ls) != 1 {
				panic(serr("arr of a slice of composite elements"))
			}
			hs := ArraySort(SRef, ArraySort(ex.ty.idxSort(), ls[0].Sort))
			return SV{Select(c.snapGet(c.cur, "[]"+typeKey(v.elem)+ls[0].Suf, hs), v.ref), &gmap{intT, v.elem}}
		case "at": // at(ref, T, i): element i of the backing array ref of type []T
			r := c.term(x.Args[0])
			t := c.typ(x.Args[1])
			return c.loadLoc(Loc{base: r, root: "[]" + typeKey(t), elem: true, idx: c.index(x.Args[2]), typ: t})
		case "sl": // sl(s, lo, hi): the slice s[lo:hi]
			s := c.eval(x.Args[0])
			if t, ok := s.v.(*Term); ok && t.sort == SStr {
				return SV{ex.substr(t, c.index(x.Args[1]), c.index(x.Args[2])), s.t}
			}
			v := s.v.(*SliceV)
			lo, hi := c.index(x.Args[1]), c.index(x.Args[2])
			return SV{&SliceV{v.ref, ex.iadd(v.off, lo), ex.isub(hi, lo), ex.isub(v.cap, lo), v.elem}, s.t}
		case "birth":
			return SV{birth(c.refTerm(x.Args[0])), intT}
		case "fresh":
			return SV{Le(c.old.now, birth(c.refTerm(x.Args[0]))), boolT}
		case "allocated":
			return SV{And(Not(Eq(c.refTerm(x.Args[0]), nilRef)), Lt(birth(c.refTerm(x.Args[0])), c.cur.now)), boolT}
		case "now":
			return SV{c.cur.now, intT}
		case "update":
			m := c.eval(x.Args[0])
			gm := m.t.(*gmap)
			k := c.asTerm(c.coerce(c.eval(x.Args[1]), gm.k), x.Args[1])
			v := c.asTerm(c.coerce(c.eval(x.Args[2]), gm.v), x.Args[2])
			return SV{Store(m.v.(*Term), k, v), m.t}
		case "constmap": // constmap(K, v)
			t := c.typ(x.Args[0])
			v := c.eval(x.Args[1])
			return SV{ConstArr(ex.ty.scalarSort(t), c.asTerm(v, x.Args[1])), &gmap{t, v.t}}
		case "zero":
			t := c.typ(x.Args[0])
			return SV{ex.zero(t), t}
		case "method": // method(x, "Close"): the bound method as a callable
			v := c.asTerm(c.eval(x.Args[0]), x.Args[0])
			f := UF("method_"+constant.StringVal(constant.MakeFromLiteral(x.Args[1].(*ast.BasicLit).Value, token.STRING, 0)), SFn, v)
			c.ex.addFact(fnKind(f))
			return SV{f, &gsort{"Fn"}}
		case "ncalls":
			f := c.fnTerm(x.Args[0])
			return SV{Select(c.snapGet(c.cur, "$ev.n", ArraySort(SFn, SInt)), f), intT}
		case "callarg", "callret": // callarg(T, f, i, j)
			t := c.typ(x.Args[0])
			f := c.fnTerm(x.Args[1])
			i := c.index(x.Args[2])
			j := int64(0)
			if len(x.Args) > 3 {
				j = c.term(x.Args[3]).num.Int64()
			}
			var ts []*Term
			for _, lf := range ex.ty.leaves(t) {
				h := c.snapGet(c.cur, evKey(name[4:], int(j), lf), ArraySort(SFn, ArraySort(SInt, lf.Sort)))
				ts = append(ts, Select(Select(h, f), i))
			}
			return SV{ex.ty.unflat(t, ts), t}
		case "retlog": // retlog(T, f): the results of the calls of f, by call number
			t := c.typ(x.Args[0])
			f := c.fnTerm(x.Args[1])
			ls := ex.ty.leaves(t)
			if len(ls) != 1 {
				panic(serr("retlog of composite type"))
			}
			h := c.snapGet(c.cur, evKey("ret", 0, ls[0]), ArraySort(SFn, ArraySort(SInt, ls[0].Sort)))
			return SV{Select(h, f), &gmap{types.Typ[types.Int], t}}
		case "calltick":
			f := c.fnTerm(x.Args[0])
			i := c.index(x.Args[1])
			return SV{Select(Select(c.snapGet(c.cur, "$ev.tick", ArraySort(SFn, ArraySort(SInt, SInt))), f), i), intT}
		case "who": // who(t): the function called at time t
			return SV{UF("ev.who", SFn, c.index(x.Args[0])), &gsort{"Fn"}}
		case "callno": // callno(t): which call of that function it was
			return SV{UF("ev.callno", SInt, c.index(x.Args[0])), intT}
		case "done": // done(l.o): the sync.Once has run
			l, ok := c.loc(x.Args[0])
			if !ok {
				panic(serr("done: not a location"))
			}
			l.path = append(l.path[:len(l.path):len(l.path)], PE{field: "$done"})
			l.typ = types.Typ[types.Bool]
			return c.loadLoc(l)
		case "sending", "receiving", "closing": // sending(ch): sends on the channel, as a callable
			f := chanFn(map[string]string{"sending": "send", "receiving": "recv", "closing": "close"}[name], c.asTerm(c.eval(x.Args[0]), x.Args[0]))
			c.ex.addFact(fnKind(f))
			return SV{f, &gsort{"Fn"}}
		case "starting": // starting("name"): the start of a goroutine that runs the function
			f := goFn(constant.StringVal(constant.MakeFromLiteral(x.Args[0].(*ast.BasicLit).Value, token.STRING, 0)))
			c.ex.addFact(fnKind(f))
			return SV{f, &gsort{"Fn"}}
		case "chclosed":
			return SV{Select(c.snapGet(c.cur, "$chan.closed", closedSort), c.asTerm(c.eval(x.Args[0]), x.Args[0])), boolT}
		case "chancap":
			return SV{Select(c.snapGet(c.cur, "$chan.cap", chancapSort), c.asTerm(c.eval(x.Args[0]), x.Args[0])), intT}
		case "tallied": // tallied(i): the sum of the i-th tally over the critical sections so far
			return SV{c.snapGet(c.cur, "$tally"+x.Args[0].(*ast.BasicLit).Value, SInt), intT}
		case "panicker": // the function whose panic is being propagated
			return SV{c.snapGet(c.cur, "$ev.panicker", SFn), &gsort{"Fn"}}
		case "tick":
			return SV{c.snapGet(c.cur, "$ev.clock", SInt), intT}
		case "apply": // apply(T, f, args...): result of a pure function value
			t := c.typ(x.Args[0])
			f := c.fnTerm(x.Args[1])
			args := []*Term{f}
			for _, a := range x.Args[2:] {
				sv := c.eval(a)
				args = append(args, ex.ty.flatten(sv.v, sv.t)...)
			}
			return SV{ex.applyPure(t, args), t}
		case "held":
			l, ok := c.loc(x.Args[0])
			if !ok {
				panic(serr("held: not a location"))
			}
			k, _ := ex.locKey(l)
			return SV{Select(c.snapGet(c.cur, "$held."+k, ArraySort(SRef, SInt)), l.base), intT}
		case "inpool": // inpool(s.pool, p): p is in the sync.Pool
			k, b := c.poolLoc(x.Args[0])
			return SV{Select(Select(c.snapGet(c.cur, k, poolSort), b), c.refTerm(x.Args[1])), boolT}
		case "typeis": // typeis(x, T)
			v := c.asTerm(c.eval(x.Args[0]), x.Args[0])
			t := c.typ(x.Args[1])
			return SV{Eq(UF("typeof", SInt, v), typeID(t)), boolT}
		case "unbox": // unbox(x, T)
			v := c.asTerm(c.eval(x.Args[0]), x.Args[0])
			t := c.typ(x.Args[1])
			return SV{ex.unbox(v, t), t}
		case "box": // box(x): x as an interface value
			sv := c.eval(x.Args[0])
			t := sv.t
			if len(x.Args) > 1 {
				t = c.typ(x.Args[1])
			}
			return SV{ex.boxTerm(sv.v, t), types.NewInterfaceType(nil, nil)}
		case "math", "int", "uint64", "int64", "uint32", "uint8", "byte", "uint", "int32":
			sv := c.eval(x.Args[0])
			if name == "math" {
				return SV{sv.v, &gsort{"Math"}}
			}
			t := types.Universe.Lookup(name).Type()
			if tm, ok := sv.v.(*Term); ok && tm.sort == SInt {
				if untyped(sv.t) {
					return c.coerce(sv, t)
				}
				return SV{tm, t}
			}
			if c.ex.ty.bv {
				return SV{ex.convert(&State{mode: ModeDry}, sv.v, sv.t, t), t}
			}
			panic(serr("conversion %s", exprStr(x)))
		case "conv": // conv(T, x)
			t := c.typ(x.Args[0])
			sv := c.coerce(c.eval(x.Args[1]), t)
			if tm, ok := sv.v.(*Term); ok && tm.sort == SInt && !c.ex.ty.bv {
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 && tm.op == "num" {
					return SV{ex.constVal(ssa.NewConst(constant.MakeFromLiteral(tm.num.String(), token.INT, 0), t), t), t}
				}
				if _, _, ti := intType(t); ti || untyped(sv.t) {
					return SV{ex.norm(&State{mode: ModeDry}, tm, t), t}
				}
			}
			return SV{ex.convert(&State{mode: ModeDry}, sv.v, sv.t, t), t}
		case "feq": // == on floating-point numbers
			a, b := c.eval(x.Args[0]), c.eval(x.Args[1])
			return SV{ex.valEq(a.v, b.v, a.t), types.Typ[types.Bool]}
		case "as": // as(T, x): re-type a term of the same sort
			t := c.typ(x.Args[0])
			return SV{c.eval(x.Args[1]).v, t}
		case "closure":
			return SV{c.fnTerm(x.Args[0]), &gsort{"Fn"}}
		case "bytes2str":
			a := c.eval(x.Args[0])
			if t, ok := a.v.(*Term); ok && t.sort == SStr {
				return a
			}
			return SV{ex.bytesStr(c.cur, a.v.(*SliceV)), types.Typ[types.String]}
		}
	}
	// predicates
	if p := c.findPred(pk, name); p != nil {
		if len(p.params) != len(x.Args) {
			panic(serr("arity of predicate %s", name))
		}
		c.depth++
		if c.depth > 40 {
			panic(serr("predicate recursion at %s", name))
		}
		n := *c
		n.pkg = p.pkg
		n.vars = map[string]SV{}
		n.cells = nil
		for i, a := range x.Args {
			n.vars[p.params[i]] = c.eval(a)
		}
		r := n.eval(p.body)
		c.depth--
		return r
	}
	if fd, ok := c.db.funs[name]; ok {
		n := *c
		n.pkg = fd.pkg
		var args []*Term
		var sorts string
		wild := false
		for i, a := range x.Args {
			if i >= len(fd.args) {
				panic(serr("arity of %s", name))
			}
			sv := c.eval(a)
			if id, ok := fd.args[i].(*ast.Ident); ok && id.Name == "_" { // of any type
				wild = true
			} else {
				sv = c.coerce(sv, n.typ(fd.args[i]))
			}
			fl := ex.ty.flatten(sv.v, sv.t)
			for _, f := range fl {
				sorts += "," + string(f.sort)
			}
			args = append(args, fl...)
		}
		rt := n.typ(fd.ret)
		nm := "f." + name
		if ex.ty.bv {
			nm = "f.bv." + name // the same function over machine integers
		}
		if wild || strings.Contains(sorts, "T_") {
			nm += sorts
		}
		r := UF(nm, ex.ty.scalarSort(rt), args...)
		if r.sort == SFn && !r.open {
			ex.addFact(fnKind(r))
		}
		return SV{r, rt}
	}
	panic(serr("unknown specification function %s", exprStr(x.Fun)))
}

// poolLoc resolves a sync.Pool field (embedded or behind a pointer) to its ghost contents.
func (c *ectx) poolLoc(e ast.Expr) (string, *Term) {
	l, ok := c.loc(e)
	if !ok {
		panic(serr("pool(%s): not a location", exprStr(e)))
	}
	if _, isPtr := l.typ.Underlying().(*types.Pointer); isPtr {
		sv := c.loadLoc(l)
		l = c.ex.toLoc(sv.v, sv.t)
	}
	return poolKey(c.ex, l)
}

func (c *ectx) refTerm(e ast.Expr) *Term {
	sv := c.eval(e)
	if s, ok := sv.v.(*SliceV); ok {
		return s.ref
	}
	return c.asTerm(sv, e)
}

func (c *ectx) fnTerm(e ast.Expr) *Term {
	return c.asTerm(c.eval(e), e)
}

func (c *ectx) findPred(pk, name string) *Pred {
	if pk == "" {
		if p, ok := c.db.preds[c.pkg+"."+name]; ok {
			return p
		}
		for k, p := range c.db.preds {
			if strings.HasSuffix(k, "."+name) && strings.HasPrefix(k, "lib.") {
				return p
			}
		}
		return nil
	}
	for k, p := range c.db.preds {
		if strings.HasSuffix(k, "/"+pk+"."+name) || k == pk+"."+name {
			return p
		}
	}
	return nil
}

func lambdaTerm(bv, body *Term) *Term {
	if body.open && hasFreeBvar(body, []*Term{bv}) {
		panic(serr("lambda under a quantifier"))
	}
	if !occurs(bv, body) {
		return ConstArr(bv.sort, body)
	}
	// recognise select(A, bv)
	if body.op == "select" && body.args[1] == bv && !occurs(bv, body.args[0]) {
		return body.args[0]
	}
	key := fmt.Sprintf("%d", Subst(body, map[*Term]*Term{bv: Var("λ."+string(bv.sort), bv.sort)}).id)
	lamMu.Lock()
	defer lamMu.Unlock()
	if t, ok := lamMemo[key]; ok {
		return t
	}
	a := Fresh("lam", ArraySort(bv.sort, body.sort))
	addVarAxiom(a, Forall([]*Term{bv}, Eq(Select(a, bv), body), []*Term{mk("select", body.sort, a, bv)}))
	lamMemo[key] = a
	return a
}

var lamMu sync.Mutex
var lamMemo = map[string]*Term{}

func evKey(kind string, j int, lf Leaf) string { return fmt.Sprintf("$ev.%s%d%s", kind, j, lf.Suf) }

func mapKey(t *types.Map) string { return "map:" + typeKey(t.Key()) + ":" + typeKey(t.Elem()) }

// newCtx builds the evaluation context of a contract for a call or a verification.
func (ex *Exec) newCtx(con *Contract, fn *ssa.Function, sig *types.Signature, tsub tsubst, args []Val) *ectx {
	c := &ectx{ex: ex, db: ex.db, pkg: con.pkg, vars: map[string]SV{}, tenv: map[string]types.Type{}}
	add := func(l *types.TypeParamList) {
		if l == nil {
			return
		}
		for i := 0; i < l.Len(); i++ {
			t := tsub.apply(l.At(i))
			c.tenv[l.At(i).Obj().Name()] = t
			c.targs = append(c.targs, t)
		}
	}
	add(sig.RecvTypeParams())
	add(sig.TypeParams())
	var pts []types.Type
	if r := sig.Recv(); r != nil {
		pts = append(pts, tsub.apply(r.Type()))
	}
	for i := 0; i < sig.Params().Len(); i++ {
		pts = append(pts, tsub.apply(sig.Params().At(i).Type()))
	}
	if len(con.params) != len(pts) {
		panic(unsupported("contract of %s lists %d parameters, the function has %d", con.key, len(con.params), len(pts)))
	}
	if args != nil {
		for i, p := range con.params {
			c.vars[p] = SV{args[i], pts[i]}
		}
	}
	return c
}

func (c *ectx) bindResults(con *Contract, sig *types.Signature, tsub tsubst, rets []Val) {
	results := con.results
	if con.then {
		results = con.thenRes
	}
	if len(results) > len(rets) {
		panic(unsupported("contract of %s lists %d results, the function has %d", con.key, len(results), len(rets)))
	}
	for i, r := range results {
		c.vars[r] = SV{rets[i], tsub.apply(sig.Results().At(i).Type())}
	}
}

// try evaluates f, converting specification errors into unsupported errors.
func specTry(where string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				panic(unsupported("%s: %s", where, se.msg))
			}
			panic(r)
		}
	}()
	f()
}

var leastMu sync.Mutex
var leastMemo = map[[3]*Term]*Term{}

// leastTerm names the least k in lo..hi with P(k), or hi+1: it exists by well-ordering.
func leastTerm(lo, hi, k, p *Term) *Term {
	leastMu.Lock()
	defer leastMu.Unlock()
	canon := Var("least_arg", SInt)
	key := [3]*Term{lo, hi, Subst(p, map[*Term]*Term{k: canon})}
	if r, ok := leastMemo[key]; ok {
		return r
	}
	r := Fresh("least", SInt)
	leastMemo[key] = r
	at := func(x *Term) *Term { return Subst(p, map[*Term]*Term{k: x}) }
	addVarAxiom(r, Imp(Le(lo, Add(hi, Num(1))), And(Le(lo, r), Le(r, Add(hi, Num(1))), Imp(Le(r, hi), at(r)))))
	addVarAxiom(r, Forall([]*Term{k}, Imp(And(Le(lo, k), Lt(k, r)), Not(p))))
	return r
}
