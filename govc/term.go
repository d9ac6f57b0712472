package main

import (
	"fmt"
	"math/big"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Sort is an SMT-LIB sort, printed verbatim.
type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SRef   Sort = "Ref"
	SIface Sort = "Iface"
	SFn    Sort = "Fn"
	SStr   Sort = "Str"
	SF64   Sort = "F64"
	SF32   Sort = "F32"
)

func ArraySort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

func splitArray(s Sort) (k, v Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	str = str[len("(Array ") : len(str)-1]
	d := 0
	for i := 0; i < len(str); i++ {
		switch str[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(str[:i]), Sort(str[i+1:])
			}
		}
	}
	panic("bad array sort " + str)
}

func isBV(s Sort) bool { return strings.HasPrefix(string(s), "(_ BitVec") }
func bvWidth(s Sort) int {
	w, _ := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(string(s), "(_ BitVec "), ")"))
	return w
}
func BVSort(w int) Sort { return Sort(fmt.Sprintf("(_ BitVec %d)", w)) }

// Term is a hash-consed SMT term.
type Term struct {
	op    string // "num" "bv" "true" "false" "var" "bvar" "forall" "exists" or an SMT op; "uf:NAME" for uninterpreted
	args  []*Term
	sort  Sort
	name  string   // var / bvar name
	num   *big.Int // num / bv
	bvs   []*Term  // bound variables of a quantifier
	pats  [][]*Term
	id    int
	open  bool // contains bvar not bound within
	lo    *big.Int
	hi    *big.Int // known range for Int terms (nil = unknown)
	tz    int      // known multiple of 2^tz
	axiom []*Term  // var only: facts to include whenever the variable occurs
}

var (
	internMu sync.Mutex
	interned = map[string]*Term{}
	termSeq  int
	freshSeq int
)

func intern(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(string(t.sort))
	b.WriteByte('|')
	b.WriteString(t.name)
	if t.num != nil {
		b.WriteString(t.num.String())
	}
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, a := range t.bvs {
		b.WriteByte(';')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, p := range t.pats {
		b.WriteByte('!')
		for _, a := range p {
			b.WriteString(strconv.Itoa(a.id))
			b.WriteByte(',')
		}
	}
	k := b.String()
	internMu.Lock()
	defer internMu.Unlock()
	if o, ok := interned[k]; ok {
		return o
	}
	termSeq++
	t.id = termSeq
	if t.op == "bvar" {
		t.open = true
	}
	for _, a := range t.args {
		if a.open {
			t.open = true
		}
	}
	if len(t.bvs) > 0 && t.open {
		// closed if all free bvars are bound here
		t.open = hasFreeBvar(t.args[0], t.bvs)
	}
	interned[k] = t
	return t
}

func hasFreeBvar(t *Term, bound []*Term) bool {
	if !t.open {
		return false
	}
	if t.op == "bvar" {
		for _, b := range bound {
			if b == t {
				return false
			}
		}
		return true
	}
	if len(t.bvs) > 0 {
		bound = append(append([]*Term{}, bound...), t.bvs...)
	}
	for _, a := range t.args {
		if hasFreeBvar(a, bound) {
			return true
		}
	}
	return false
}

var (
	tTrue  = intern(&Term{op: "true", sort: SBool})
	tFalse = intern(&Term{op: "false", sort: SBool})
)

func Num(n int64) *Term { return NumBig(big.NewInt(n)) }
func NumBig(n *big.Int) *Term {
	c := new(big.Int).Set(n)
	tz := 64
	if c.Sign() != 0 {
		tz = int(new(big.Int).Abs(c).TrailingZeroBits())
	}
	return intern(&Term{op: "num", sort: SInt, num: c, lo: c, hi: c, tz: tz})
}
func BV(n *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	c := new(big.Int).Mod(n, m)
	return intern(&Term{op: "bv", sort: BVSort(w), num: c})
}
func Var(name string, s Sort) *Term { return intern(&Term{op: "var", sort: s, name: name}) }
func Fresh(prefix string, s Sort) *Term {
	internMu.Lock()
	freshSeq++
	n := freshSeq
	internMu.Unlock()
	return Var(fmt.Sprintf("%s!%d", sanitize(prefix), n), s)
}
func BVar(prefix string, s Sort) *Term {
	internMu.Lock()
	freshSeq++
	n := freshSeq
	internMu.Unlock()
	return intern(&Term{op: "bvar", sort: s, name: fmt.Sprintf("%s?%d", sanitize(prefix), n)})
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '$', r == '?', r == '<', r == '>', r == '*', r == '/', r == '~', r == '@':
			return r
		}
		return '_'
	}, s)
}

func mk(op string, s Sort, args ...*Term) *Term {
	return intern(&Term{op: op, sort: s, args: args})
}
func mkR(op string, s Sort, lo, hi *big.Int, tz int, args ...*Term) *Term {
	return intern(&Term{op: op, sort: s, args: args, lo: lo, hi: hi, tz: tz})
}

func UF(name string, s Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return Var(name, s)
	}
	return intern(&Term{op: "uf:" + sanitize(name), sort: s, args: args})
}

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	}
	return mk("not", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a == tTrue {
			continue
		}
		if a == tFalse {
			return tFalse
		}
		if a.op == "and" {
			for _, b := range a.args {
				if !seen[b.id] {
					seen[b.id] = true
					out = append(out, b)
				}
			}
			continue
		}
		if !seen[a.id] {
			seen[a.id] = true
			out = append(out, a)
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", SBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a == tFalse {
			continue
		}
		if a == tTrue {
			return tTrue
		}
		out = append(out, a)
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", SBool, out...)
}

func Imp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	return mk("=>", SBool, a, b)
}

func distinctConsts(a, b *Term) bool {
	if (a.op == "num" || a.op == "bv") && (b.op == "num" || b.op == "bv") {
		return a.num.Cmp(b.num) != 0
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s vs %s (%s , %s)", a.sort, b.sort, a, b))
	}
	if distinctConsts(a, b) {
		return tFalse
	}
	if a.sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	}
	if a.sort == SInt {
		if r := rangeCmp(a, b); r != 0 {
			return tFalse
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}

// rangeCmp: -1 if a<b surely, 1 if a>b surely, 0 unknown
func rangeCmp(a, b *Term) int {
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) < 0 {
		return -1
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
		return 1
	}
	return 0
}

func Ite(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Ite sort mismatch %s %s", a.sort, b.sort))
	}
	if a.sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return Not(c)
		}
	}
	var lo, hi *big.Int
	if a.lo != nil && b.lo != nil {
		lo = minBig(a.lo, b.lo)
	}
	if a.hi != nil && b.hi != nil {
		hi = maxBig(a.hi, b.hi)
	}
	tz := a.tz
	if b.tz < tz {
		tz = b.tz
	}
	return mkR("ite", a.sort, lo, hi, tz, c, a, b)
}

func minBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// linear normal form helper: collect sum as const + list of (term,coef)
type lin struct {
	c *big.Int
	m map[*Term]*big.Int
}

func toLin(t *Term, k *big.Int, l *lin) {
	switch t.op {
	case "num":
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(k, t.num))
	case "+":
		for _, a := range t.args {
			toLin(a, k, l)
		}
	case "-":
		if len(t.args) == 1 {
			toLin(t.args[0], new(big.Int).Neg(k), l)
		} else {
			toLin(t.args[0], k, l)
			nk := new(big.Int).Neg(k)
			for _, a := range t.args[1:] {
				toLin(a, nk, l)
			}
		}
	case "*":
		if t.args[0].op == "num" {
			toLin(t.args[1], new(big.Int).Mul(k, t.args[0].num), l)
			return
		}
		fallthrough
	default:
		o := l.m[t]
		if o == nil {
			o = new(big.Int)
		}
		l.m[t] = new(big.Int).Add(o, k)
	}
}

func fromLin(l *lin) *Term {
	var ts []*Term
	for t, k := range l.m {
		if k.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	lo, hi := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	var args []*Term
	tz := 64
	if l.c.Sign() != 0 {
		tz = int(new(big.Int).Abs(l.c).TrailingZeroBits())
	}
	for _, t := range ts {
		k := l.m[t]
		a, b := t.lo, t.hi
		if k.Sign() < 0 {
			a, b = b, a
		}
		if lo != nil && a != nil {
			lo = new(big.Int).Add(lo, new(big.Int).Mul(k, a))
		} else {
			lo = nil
		}
		if hi != nil && b != nil {
			hi = new(big.Int).Add(hi, new(big.Int).Mul(k, b))
		} else {
			hi = nil
		}
		z := t.tz + int(new(big.Int).Abs(k).TrailingZeroBits())
		if z < tz {
			tz = z
		}
		if k.Cmp(big.NewInt(1)) == 0 {
			args = append(args, t)
		} else {
			kt := NumBig(k)
			var l2, h2 *big.Int
			if a != nil {
				l2 = new(big.Int).Mul(k, a)
			}
			if b != nil {
				h2 = new(big.Int).Mul(k, b)
			}
			args = append(args, mkR("*", SInt, l2, h2, z, kt, t))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, NumBig(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mkR("+", SInt, lo, hi, tz, args...)
}

func Add(as ...*Term) *Term {
	l := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
	for _, a := range as {
		toLin(a, big.NewInt(1), l)
	}
	return fromLin(l)
}
func Sub(a, b *Term) *Term {
	l := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
	toLin(a, big.NewInt(1), l)
	toLin(b, big.NewInt(-1), l)
	return fromLin(l)
}
func Mul(a, b *Term) *Term {
	if b.op == "num" {
		a, b = b, a
	}
	if a.op == "num" {
		l := &lin{c: new(big.Int), m: map[*Term]*big.Int{}}
		toLin(b, a.num, l)
		return fromLin(l)
	}
	var lo, hi *big.Int
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		for i, x := range []*big.Int{a.lo, a.hi} {
			for j, y := range []*big.Int{b.lo, b.hi} {
				p := new(big.Int).Mul(x, y)
				if i == 0 && j == 0 {
					lo, hi = p, p
				}
				lo, hi = minBig(lo, p), maxBig(hi, p)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkR("*", SInt, lo, hi, a.tz+b.tz, a, b)
}

func isPos(t *Term) bool { return t.op == "num" && t.num.Sign() > 0 }

// EDiv/EMod are SMT (Euclidean) div/mod.
func EDiv(a, b *Term) *Term {
	if a.op == "num" && b.op == "num" && b.num.Sign() != 0 {
		return NumBig(new(big.Int).Div(a.num, b.num))
	}
	if b.op == "num" && b.num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	var lo, hi *big.Int
	if b.op == "num" && b.num.Sign() > 0 {
		if a.op == "div" && a.args[1].op == "num" && a.args[1].num.Sign() > 0 {
			return EDiv(a.args[0], NumBig(new(big.Int).Mul(a.args[1].num, b.num)))
		}
		if a.lo != nil {
			lo = new(big.Int).Div(a.lo, b.num)
		}
		if a.hi != nil {
			hi = new(big.Int).Div(a.hi, b.num)
		}
		if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			return NumBig(lo)
		}
	}
	return mkR("div", SInt, lo, hi, 0, a, b)
}
func EMod(a, b *Term) *Term {
	if a.op == "num" && b.op == "num" && b.num.Sign() != 0 {
		m := new(big.Int).Mod(a.num, b.num)
		return NumBig(m)
	}
	if b.op == "num" && b.num.Sign() > 0 {
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.num) < 0 {
			return a
		}
		tz := int(b.num.TrailingZeroBits())
		if a.tz < tz {
			tz = a.tz
		}
		return mkR("mod", SInt, new(big.Int), new(big.Int).Sub(b.num, big.NewInt(1)), tz, a, b)
	}
	return mkR("mod", SInt, nil, nil, 0, a, b)
}

func Le(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) <= 0 {
		return tTrue
	}
	if rangeCmp(a, b) == 1 {
		return tFalse
	}
	return mk("<=", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if rangeCmp(a, b) == -1 {
		return tTrue
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) >= 0 {
		return tFalse
	}
	return mk("<", SBool, a, b)
}

func Select(a, i *Term) *Term {
	_, v := splitArray(a.sort)
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if distinctIdx(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return mk("select", v, a, i)
}

func distinctIdx(a, b *Term) bool {
	if distinctConsts(a, b) {
		return true
	}
	if a.sort == SInt {
		d := Sub(a, b)
		return d.op == "num" && d.num.Sign() != 0
	}
	return false
}

func Store(a, i, v *Term) *Term {
	k, vs := splitArray(a.sort)
	if k != i.sort || vs != v.sort {
		panic(fmt.Sprintf("Store sort mismatch: %s [%s]=%s", a.sort, i.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", a.sort, a, i, v)
}

func ConstArr(k Sort, v *Term) *Term {
	return mk("constarr", ArraySort(k, v.sort), v)
}

func Forall(bvs []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", bvs, body, pats)
}
func Exists(bvs []*Term, body *Term) *Term { return quant("exists", bvs, body, nil) }

func quant(op string, bvs []*Term, body *Term, pats [][]*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	var used []*Term
	for _, b := range bvs {
		if occurs(b, body) {
			used = append(used, b)
		}
	}
	if len(used) == 0 {
		return body
	}
	return intern(&Term{op: op, sort: SBool, args: []*Term{body}, bvs: used, pats: pats})
}

func occurs(b, t *Term) bool {
	if b == t {
		return true
	}
	if !t.open && b.op == "bvar" {
		return false
	}
	for _, a := range t.args {
		if occurs(b, a) {
			return true
		}
	}
	return false
}

// rebuild applies smart constructors again.
func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Imp(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		return Add(args...)
	case "*":
		return Mul(args[0], args[1])
	case "div":
		return EDiv(args[0], args[1])
	case "mod":
		return EMod(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "forall", "exists":
		return quant(t.op, t.bvs, args[0], t.pats)
	}
	return mkR(t.op, t.sort, nil, nil, 0, args...)
}

func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			if len(t.pats) > 0 {
				var np [][]*Term
				for _, p := range t.pats {
					var q []*Term
					for _, x := range p {
						q = append(q, rec(x))
					}
					np = append(np, q)
				}
				r = quant(t.op, t.bvs, na[0], np)
			} else {
				r = rebuild(t, na)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (t *Term) String() string {
	var b strings.Builder
	t.write(&b, nil)
	return b.String()
}

func (t *Term) write(b *strings.Builder, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	switch t.op {
	case "num":
		if t.num.Sign() < 0 {
			b.WriteString("(- ")
			b.WriteString(new(big.Int).Neg(t.num).String())
			b.WriteString(")")
		} else {
			b.WriteString(t.num.String())
		}
	case "bv":
		fmt.Fprintf(b, "(_ bv%s %d)", t.num.String(), bvWidth(t.sort))
	case "true", "false":
		b.WriteString(t.op)
	case "var", "bvar":
		b.WriteString(quoteName(t.name))
	case "forall", "exists":
		b.WriteString("(" + t.op + " (")
		for _, v := range t.bvs {
			n := quoteName(v.name)
			if x, ok := names[v]; ok {
				n = x
			}
			fmt.Fprintf(b, "(%s %s)", n, v.sort)
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		t.args[0].write(b, names)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					x.write(b, names)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
	case "constarr":
		fmt.Fprintf(b, "((as const %s) ", t.sort)
		t.args[0].write(b, names)
		b.WriteString(")")
	default:
		op := t.op
		if strings.HasPrefix(op, "uf:") {
			op = quoteName(op[3:])
		}
		b.WriteString("(" + op)
		for _, a := range t.args {
			b.WriteByte(' ')
			a.write(b, names)
		}
		b.WriteString(")")
	}
}

func quoteName(s string) string {
	return "|" + s + "|"
}

// an assumed variable of this name limits the lemmas a query may use to those before its number
const lemmaMark = "$lemma#"
const usesMark = "$uses#"

// BuildQuery renders assertions (closed) as an SMT-LIB script body.
func BuildQuery(asserts []*Term) string {
	limit := int(1 << 30)
	uses := ""
	for _, a := range asserts {
		if a.op == "var" && strings.HasPrefix(a.name, lemmaMark) {
			limit, _ = strconv.Atoi(a.name[len(lemmaMark):])
		}
		if a.op == "var" && strings.HasPrefix(a.name, usesMark) {
			uses = a.name[len(usesMark):] + ","
		}
	}
	// transitive axioms of variables
	seen := map[*Term]bool{}
	var order []*Term
	var vars []*Term
	ufs := map[string]string{}
	sorts := map[Sort]bool{}
	refs := map[*Term]int{}
	addSort := func(s Sort) {
		var rec func(s Sort)
		rec = func(s Sort) {
			if strings.HasPrefix(string(s), "(Array ") {
				k, v := splitArray(s)
				rec(k)
				rec(v)
				return
			}
			if s == SInt || s == SBool || isBV(s) || s == "Real" {
				return
			}
			sorts[s] = true
		}
		rec(s)
	}
	var all []*Term
	var visit func(t *Term)
	var pending []*Term
	visit = func(t *Term) {
		refs[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a)
		}
		for _, p := range t.pats {
			for _, a := range p {
				visit(a)
			}
		}
		addSort(t.sort)
		for _, v := range t.bvs {
			addSort(v.sort)
		}
		switch {
		case t.op == "var":
			vars = append(vars, t)
			pending = append(pending, varAxioms(t)...)
		case strings.HasPrefix(t.op, "uf:"):
			var as []string
			for _, a := range t.args {
				as = append(as, string(a.sort))
			}
			if _, ok := ufs[t.op[3:]]; !ok {
				for _, a := range ufAxioms(t.op[3:]) {
					lemmaMu.Lock()
					if d := defOf[a]; d != "" && uses != "" && !strings.Contains(uses, ","+d+",") {
						lemmaMu.Unlock()
						continue
					}
					if l := lemmaOf[a]; l != nil {
						if l.lemma.idx >= limit || uses != "" && !strings.Contains(uses, ","+strings.TrimPrefix(l.key, "lemma ")+",") {
							lemmaMu.Unlock()
							continue
						}
						lemmaUsed[l] = true
					}
					lemmaMu.Unlock()
					pending = append(pending, a)
				}
			}
			ufs[t.op[3:]] = fmt.Sprintf("(declare-fun %s (%s) %s)\n", quoteName(t.op[3:]), strings.Join(as, " "), t.sort)
		}
		order = append(order, t)
	}
	done := map[*Term]bool{}
	add := func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		all = append(all, t)
		visit(t)
	}
	for _, a := range asserts {
		add(a)
	}
	strDone, strPairs := 0, 0
	strArgs := map[string][]*Term{}
	for {
		for len(pending) > 0 {
			p := pending[0]
			pending = pending[1:]
			add(p)
		}
		// strings compared somewhere are equal when their bytes are (one instance per comparison)
		n := len(order)
		for ; strDone < n; strDone++ {
			if t := order[strDone]; t.op == "=" && !t.open && t.args[0].sort == SStr {
				pending = append(pending, strExtInst(t.args[0], t.args[1]))
			}
			// a digit of a number is the difference of two of its quotients
			if t := order[strDone]; t.op == "mod" && !t.open && isPos(t.args[1]) && t.args[0].op == "div" && isPos(t.args[0].args[1]) {
				q, b := t.args[0], t.args[1]
				pending = append(pending, Eq(t, Sub(q, Mul(b, EDiv(q, b)))))
			}
			// and so are those at the same place of two uses of a declared function
			if t := order[strDone]; strings.HasPrefix(t.op, "uf:f.") && !t.open {
				for i, a := range t.args {
					if a.sort != SStr {
						continue
					}
					k := fmt.Sprintf("%s/%d", t.op, i)
					if !slices.Contains(strArgs[k], a) {
						for _, b := range strArgs[k] {
							if strPairs++; strPairs <= 300 {
								pending = append(pending, strExtInst(a, b))
							}
						}
						strArgs[k] = append(strArgs[k], a)
					}
				}
			}
		}
		if len(pending) == 0 {
			break
		}
	}
	var b strings.Builder
	var ss []string
	for s := range sorts {
		ss = append(ss, string(s))
	}
	sort.Strings(ss)
	for _, s := range ss {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	names := map[*Term]string{}
	canon := func(v *Term, k int) string {
		base := v.name
		if i := strings.LastIndexAny(base, "!?"); i > 0 {
			return quoteName(fmt.Sprintf("%s!%d", base[:i], k))
		}
		return quoteName(base)
	}
	for i, v := range vars {
		names[v] = canon(v, i)
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", names[v], v.sort)
	}
	bn := 0
	for _, t := range order {
		for _, v := range t.bvs {
			if _, ok := names[v]; !ok {
				bn++
				names[v] = canon(v, bn)
			}
		}
	}
	var un []string
	for _, u := range ufs {
		un = append(un, u)
	}
	sort.Strings(un)
	for _, u := range un {
		b.WriteString(u)
	}
	cnt := 0
	for _, t := range order {
		if t.open || len(t.args) == 0 || refs[t] < 2 || t.op == "forall" || t.op == "exists" {
			continue
		}
		if t.op == "select" && len(t.args[0].args) == 0 && len(t.args[1].args) == 0 {
			continue
		}
		cnt++
		n := fmt.Sprintf("d%d", cnt)
		fmt.Fprintf(&b, "(define-fun %s () %s ", n, t.sort)
		t.write(&b, names)
		b.WriteString(")\n")
		names[t] = n
	}
	for _, a := range all {
		b.WriteString("(assert ")
		a.write(&b, names)
		b.WriteString(")\n")
	}
	return b.String()
}

var (
	axMu     sync.Mutex
	axVar    = map[*Term][]*Term{}
	axUF     = map[string][]*Term{}
	axGlobal []*Term
)

func varAxioms(t *Term) []*Term {
	axMu.Lock()
	defer axMu.Unlock()
	return axVar[t]
}
func addVarAxiom(t, ax *Term) {
	axMu.Lock()
	defer axMu.Unlock()
	axVar[t] = append(axVar[t], ax)
}
func ufAxioms(n string) []*Term {
	axMu.Lock()
	defer axMu.Unlock()
	return axUF[n]
}
func addUFAxiom(n string, ax *Term) {
	n = sanitize(n)
	axMu.Lock()
	defer axMu.Unlock()
	for _, a := range axUF[n] {
		if a == ax {
			return
		}
	}
	axUF[n] = append(axUF[n], ax)
}
func hasUFAxiom(n string) bool {
	axMu.Lock()
	defer axMu.Unlock()
	return len(axUF[sanitize(n)]) > 0
}
