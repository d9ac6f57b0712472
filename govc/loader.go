package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/unsafe-risk/utilx"

// Loader holds the SSA form of /repo's current source.
type Loader struct {
	fset    *token.FileSet
	repo    string
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // by path relative to the module
	tpkgs   map[string]*types.Package
	funcs   map[string]*ssa.Function
	globals map[string]*ssa.Global // variables only initialisation writes
	mu      sync.Mutex
	loops   map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
}

type loopInfo struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func relPkg(path string) string {
	if path == modPath {
		return "."
	}
	return strings.TrimPrefix(path, modPath+"/")
}

// deps lists the dependency packages ("dep PATH" lines) whose bodies are read, inlined and verified too.
func deps(dir string) map[string]bool {
	out := map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "dep ") {
				out[strings.TrimSpace(stripComment(l[4:]))] = true
			}
		}
	}
	return out
}

// stdInline are packages whose functions, where they have no contract, are verified as part of their caller.
var stdInline = map[string]bool{"encoding/binary": true, "math/bits": true, "slices": true, "maps": true, "cmp": true, "strings": true, "bytes": true, "container/list": true, "container/heap": true, "unicode/utf8": true, "sort": true, "math": true, "math/rand": true}

func Load(repo string, pats []string, dep map[string]bool) (*Loader, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  repo,
		Fset: fset,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"),
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.NaiveForm|ssa.BareInits)
	ld := &Loader{fset: fset, repo: repo, prog: prog, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{},
		funcs: map[string]*ssa.Function{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}}
	packages.Visit(ps, nil, func(p *packages.Package) {
		ld.tpkgs[p.PkgPath] = p.Types
	})
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), modPath) || dep[p.Pkg.Path()] {
			p.Build()
			ld.pkgs[relPkg(p.Pkg.Path())] = p
		} else if stdInline[p.Pkg.Path()] {
			p.Build()
		}
	}
	for _, p := range ld.pkgs {
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				ld.addFn(x)
			case *ssa.Type:
				if n, ok := x.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						if f := prog.FuncValue(n.Method(i)); f != nil {
							ld.addFn(f)
						}
					}
				}
			}
		}
	}
	return ld, nil
}

func (ld *Loader) addFn(f *ssa.Function) {
	k := funcKey(f)
	ld.funcs[k] = f
	for i, a := range f.AnonFuncs {
		ld.funcs[fmt.Sprintf("%s$%d", k, i+1)] = a
	}
}

// funcKey names a function: path.(*T).M, path.T.M or path.F.
func funcKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Parent() != nil {
		for i, a := range f.Parent().AnonFuncs {
			if a == f {
				return fmt.Sprintf("%s$%d", funcKey(f.Parent()), i+1)
			}
		}
	}
	if obj, ok := f.Object().(*types.Func); ok {
		return objKey(obj)
	}
	if f.Pkg != nil {
		return relPkg(f.Pkg.Pkg.Path()) + "." + f.Name()
	}
	return f.String()
}

func objKey(o *types.Func) string {
	p := ""
	if o.Pkg() != nil {
		p = relPkg(o.Pkg().Path()) + "."
	}
	sig := o.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok {
				return p + "(*" + n.Obj().Name() + ")." + o.Name()
			}
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return p + n.Obj().Name() + "." + o.Name()
		}
	}
	return p + o.Name()
}

func (ld *Loader) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *loopInfo {
	ld.mu.Lock()
	defer ld.mu.Unlock()
	m, ok := ld.loops[fn]
	if !ok {
		m = map[*ssa.BasicBlock]*loopInfo{}
		ld.loops[fn] = m
		for _, x := range fn.Blocks {
			for _, s := range x.Succs {
				if s == x || s.Dominates(x) {
					lp := m[s]
					if lp == nil {
						lp = &loopInfo{fn: fn, header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
						m[s] = lp
					}
					// natural loop
					var work []*ssa.BasicBlock
					if !lp.blocks[x] {
						lp.blocks[x] = true
						work = append(work, x)
					}
					for len(work) > 0 {
						y := work[len(work)-1]
						work = work[:len(work)-1]
						for _, p := range y.Preds {
							if !lp.blocks[p] {
								lp.blocks[p] = true
								work = append(work, p)
							}
						}
					}
				}
			}
		}
		// irreducible control flow would escape the analysis
		color := map[*ssa.BasicBlock]int{}
		var dfs func(x *ssa.BasicBlock)
		dfs = func(x *ssa.BasicBlock) {
			color[x] = 1
			for _, s := range x.Succs {
				if color[s] == 1 && m[s] == nil {
					panic(unsupported("irreducible loop in %s", fn))
				}
				if color[s] == 0 {
					dfs(s)
				}
			}
			color[x] = 2
		}
		if len(fn.Blocks) > 0 {
			dfs(fn.Blocks[0])
		}
	}
	return m[b]
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
