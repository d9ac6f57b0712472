package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// gmap is a specification-only mathematical map type.
type gmap struct{ k, v types.Type }

func (g *gmap) Underlying() types.Type { return g }
func (g *gmap) String() string         { return "gmap[" + g.k.String() + "]" + g.v.String() }

// gsort is a specification-only uninterpreted sort.
type gsort struct{ name string }

func (g *gsort) Underlying() types.Type { return g }
func (g *gsort) String() string         { return "sort " + g.name }

// Leaf is a scalar component of a flattened Go type.
type Leaf struct {
	Suf  string
	Sort Sort
	Typ  types.Type // scalar Go type (or nil for slice header parts)
	Arr  int        // array nesting depth
}

// opaque standard-library structs and the parts of them the models need
var opaqueStructs = map[string][]struct {
	n string
	t types.Type
}{
	"sync.Pool":              {{"New", types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.NewInterfaceType(nil, nil))), false)}},
	"sync.Mutex":             {},
	"sync.RWMutex":           {},
	"sync.Once":              {{"$done", types.Typ[types.Bool]}},
	"sync.WaitGroup":         {},
	"sync/atomic.Bool":       {{"$v", types.Typ[types.Bool]}},
	"time.Time":              {{"sec", &gsort{"Math"}}, {"ns", &gsort{"Math"}}, {"mono", &gsort{"Math"}}, {"loc", types.Typ[types.UnsafePointer]}},
	"time.Ticker":            {{"C", types.NewChan(types.RecvOnly, types.Typ[types.Int])}},
	"time.Timer":             {{"C", types.NewChan(types.RecvOnly, types.Typ[types.Int])}},
	"strings.Builder":        {{"text", types.Typ[types.String]}},
	"container/list.Element": {},
}

func typeFullName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// typeKey names a type for heap maps; instantiations share the origin's key.
func typeKey(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		p := ""
		if t.Obj().Pkg() != nil {
			parts := strings.Split(t.Obj().Pkg().Path(), "/")
			if len(parts) > 2 {
				parts = parts[len(parts)-2:]
			}
			p = strings.Join(parts, "/") + "."
		}
		return p + t.Obj().Name()
	case *types.Pointer:
		return "*" + typeKey(t.Elem())
	case *types.Slice:
		return "[]" + typeKey(t.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), typeKey(t.Elem()))
	case *types.TypeParam:
		return t.Obj().Name()
	case *types.Map:
		return "map[" + typeKey(t.Key()) + "]" + typeKey(t.Elem())
	case *types.Chan:
		return "chan " + typeKey(t.Elem())
	case *types.Interface:
		if t.Empty() {
			return "interface{}"
		}
	case *types.Signature:
		// without the parameter names
		list := func(l *types.Tuple) string {
			var ss []string
			for i := 0; i < l.Len(); i++ {
				ss = append(ss, typeKey(l.At(i).Type()))
			}
			return strings.Join(ss, ", ")
		}
		s := "func(" + list(t.Params())
		if t.Variadic() {
			s += "..."
		}
		return s + ")(" + list(t.Results()) + ")"
	}
	return t.String()
}

type typer struct {
	bv bool // fixed-width bit-vector integers instead of mathematical ones with explicit wrap-around
}

func intInfo(b *types.Basic) (w int, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func intType(t types.Type) (w int, signed bool, ok bool) {
	if b, y := t.Underlying().(*types.Basic); y {
		return intInfo(b)
	}
	return 0, false, false
}

func intRange(t types.Type) (lo, hi *big.Int) {
	w, s, ok := intType(t)
	if !ok {
		return nil, nil
	}
	one := big.NewInt(1)
	if s {
		hi = new(big.Int).Lsh(one, uint(w-1))
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, one)
		return
	}
	hi = new(big.Int).Lsh(one, uint(w))
	return big.NewInt(0), hi.Sub(hi, one)
}

func (ty *typer) idxSort() Sort {
	if ty.bv {
		return BVSort(64)
	}
	return SInt
}

func (ty *typer) scalarSort(t types.Type) Sort {
	switch u := t.(type) {
	case *gmap:
		return ArraySort(ty.scalarSort(u.k), ty.scalarSort(u.v))
	case *gsort:
		if u.name == "Math" {
			return SInt
		}
		return Sort(u.name)
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		return Sort("T_" + tp.Obj().Name())
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(u); ok {
			if ty.bv {
				return BVSort(w)
			}
			return SInt
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return SBool
		case types.String, types.UntypedString:
			return SStr
		case types.Float64, types.UntypedFloat:
			return SF64
		case types.Float32:
			return SF32
		case types.UnsafePointer, types.UntypedNil:
			return SRef
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return SRef
	case *types.Signature:
		return SFn
	case *types.Interface:
		return SIface
	case *gmap, *gsort:
		return ty.scalarSort(u)
	}
	panic(unsupported("scalar sort of %s", t))
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...any) unsupportedErr { return unsupportedErr{fmt.Sprintf(f, a...)} }

func isScalar(t types.Type) bool {
	switch t.(type) {
	case *gmap, *gsort:
		return true
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Slice, *types.Array, *types.Tuple:
		return false
	}
	return true
}

func structFields(t types.Type) []struct {
	n string
	t types.Type
} {
	if o, ok := opaqueStructs[typeFullName(t)]; ok {
		return o
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		if !strings.Contains(p, ".") { // other standard-library structs are opaque
			return nil
		}
	}
	var out []struct {
		n string
		t types.Type
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		n := f.Name()
		if n == "_" {
			n = fmt.Sprintf("_%d", i)
		}
		out = append(out, struct {
			n string
			t types.Type
		}{n, f.Type()})
	}
	return out
}

func (ty *typer) leaves(t types.Type) []Leaf {
	if isScalar(t) {
		return []Leaf{{"", ty.scalarSort(t), t, 0}}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		i := ty.idxSort()
		it := types.Typ[types.Int]
		return []Leaf{{".$ref", SRef, nil, 0}, {".$off", i, it, 0}, {".$len", i, it, 0}, {".$cap", i, it, 0}}
	case *types.Array:
		var out []Leaf
		for _, l := range ty.leaves(u.Elem()) {
			out = append(out, Leaf{"[]" + l.Suf, ArraySort(ty.idxSort(), l.Sort), l.Typ, l.Arr + 1})
		}
		return out
	case *types.Struct:
		var out []Leaf
		for _, f := range structFields(t) {
			for _, l := range ty.leaves(f.t) {
				out = append(out, Leaf{"." + f.n + l.Suf, l.Sort, l.Typ, l.Arr})
			}
		}
		return out
	}
	panic(unsupported("leaves of %s", t))
}

// Val is a symbolic Go value: *Term, *StructV, *SliceV, *ArrV, *PtrV, *FuncV, *TupleV, *IterV.
type Val interface{}

type StructV struct {
	typ types.Type
	f   []Val
}
type SliceV struct {
	ref, off, len, cap *Term
	elem               types.Type
}
type ArrV struct {
	n    int64
	elem types.Type
	arrs []*Term
}
type TupleV struct{ v []Val }

// PtrV is a pointer to a location that is not a whole heap object.
type PtrV struct{ loc Loc }

type PE struct {
	field string
	idx   *Term
}

// Loc is an assignable location.
type Loc struct {
	cell  int // > 0: a local cell
	base  *Term
	root  string
	elem  bool
	idx   *Term
	path  []PE
	typ   types.Type
	ghost bool
}

func (ty *typer) flatten(v Val, t types.Type) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *SliceV:
		return []*Term{x.ref, x.off, x.len, x.cap}
	case *ArrV:
		return x.arrs
	case *StructV:
		var out []*Term
		fs := structFields(x.typ)
		for i, f := range x.f {
			out = append(out, ty.flatten(f, fs[i].t)...)
		}
		return out
	case *PtrV:
		l := x.loc
		if l.cell == 0 && len(l.path) == 0 && !l.elem {
			return []*Term{l.base}
		}
		panic(unsupported("pointer to interior location escapes (%s)", t))
	case *FuncV:
		return []*Term{x.term()}
	}
	panic(unsupported("flatten %T", v))
}

func (ty *typer) unflatten(t types.Type, ts []*Term) (Val, []*Term) {
	if isScalar(t) {
		return ts[0], ts[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{ts[0], ts[1], ts[2], ts[3], u.Elem()}, ts[4:]
	case *types.Array:
		n := len(ty.leaves(u.Elem()))
		return &ArrV{u.Len(), u.Elem(), ts[:n:n]}, ts[n:]
	case *types.Struct:
		s := &StructV{typ: t}
		for _, f := range structFields(t) {
			var v Val
			v, ts = ty.unflatten(f.t, ts)
			s.f = append(s.f, v)
		}
		return s, ts
	}
	panic(unsupported("unflatten %s", t))
}

func (ty *typer) unflat(t types.Type, ts []*Term) Val {
	v, _ := ty.unflatten(t, ts)
	return v
}

// substitution of type parameters
type tsubst map[*types.TypeParam]types.Type

func (s tsubst) apply(t types.Type) types.Type {
	if len(s) == 0 || t == nil {
		return t
	}
	switch u := t.(type) {
	case *gmap:
		return &gmap{s.apply(u.k), s.apply(u.v)}
	case *gsort:
		return u
	case *types.Alias:
		return s.apply(types.Unalias(u))
	case *types.TypeParam:
		if r, ok := s[u]; ok {
			return r
		}
		return u
	case *types.Named:
		ta := u.TypeArgs()
		if ta == nil || ta.Len() == 0 {
			return u
		}
		var args []types.Type
		ch := false
		for i := 0; i < ta.Len(); i++ {
			a := s.apply(ta.At(i))
			if a != ta.At(i) {
				ch = true
			}
			args = append(args, a)
		}
		if !ch {
			return u
		}
		r, err := types.Instantiate(nil, u.Origin(), args, false)
		if err != nil {
			panic(err)
		}
		return r
	case *types.Pointer:
		e := s.apply(u.Elem())
		if e == u.Elem() {
			return u
		}
		return types.NewPointer(e)
	case *types.Slice:
		e := s.apply(u.Elem())
		if e == u.Elem() {
			return u
		}
		return types.NewSlice(e)
	case *types.Array:
		e := s.apply(u.Elem())
		if e == u.Elem() {
			return u
		}
		return types.NewArray(e, u.Len())
	case *types.Map:
		return types.NewMap(s.apply(u.Key()), s.apply(u.Elem()))
	case *types.Chan:
		return types.NewChan(u.Dir(), s.apply(u.Elem()))
	case *types.Tuple:
		var vs []*types.Var
		for i := 0; i < u.Len(); i++ {
			v := u.At(i)
			vs = append(vs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), s.apply(v.Type())))
		}
		return types.NewTuple(vs...)
	case *types.Signature:
		return types.NewSignatureType(nil, nil, nil, s.apply(u.Params()).(*types.Tuple), s.apply(u.Results()).(*types.Tuple), u.Variadic())
	case *types.Struct:
		var vs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			v := u.Field(i)
			vs = append(vs, types.NewField(v.Pos(), v.Pkg(), v.Name(), s.apply(v.Type()), v.Embedded()))
		}
		return types.NewStruct(vs, nil)
	}
	return t
}
