package dsx/slicex

// how fmt prints a value with the verb %v
fun printed(any) string
// joined(a, sep, lo, hi): the texts of the elements lo..hi-1, with sep between neighbours
fun joined(_, string, int, int) string
axiom joined-none[T]: forall(gmap(int, T)(a), string(sep), int(lo), int(hi), imp(hi <= lo, joined(a, sep, lo, hi) == ""), trig(joined(a, sep, lo, hi)))
axiom joined-one[T]: forall(gmap(int, T)(a), string(sep), int(lo), int(hi), imp(hi == lo + 1, joined(a, sep, lo, hi) == printed(box(a[lo]))), trig(joined(a, sep, lo, hi)))
axiom joined-next[T]: forall(gmap(int, T)(a), string(sep), int(lo), int(c), int(d), imp(lo < c && d == c + 1, joined(a, sep, lo, d) == joined(a, sep, lo, c) + (sep + printed(box(a[c])))), trig(joined(a, sep, lo, d), joined(a, sep, lo, c)))

// assumed: the verb %v alone prints the one value, %T its type, and printing changes nothing
fun typename(any) string
extern fmt.Sprintf(format, args) (s)
  ensures imp(format == "error - %T\n" && len(args) == 1, s == "error - " + (typename(args[0]) + "\n"))
  ensures imp(format == "error - %T\n%s\n" && len(args) == 2 && typeis(args[1], string), s == "error - " + (typename(args[0]) + ("\n" + (unbox(args[1], string) + "\n"))))
  ensures imp(format == "%T" && len(args) == 1, s == typename(args[0]))
  ensures imp(format == "%v" && len(args) == 1, s == printed(args[0]))

extern fmt.Sprint(args) (s)
  ensures imp(len(args) == 1, s == printed(args[0]))

// glued(p, sep, lo, hi): the texts lo..hi-1, with sep between neighbours, as strings.Join puts them together;
// texts that are the printed elements of a make what joined says (by induction on the number of texts)
fun glued(_, string, int, int) string
axiom glued-joined[T]: forall(gmap(int, string)(p), gmap(int, T)(a), string(sep), int(l), int(h), int(lo), int(hi), imp(h - l == hi - lo && forall(int(k), imp(0 <= k && k < h - l, p[l+k] == printed(box(a[lo+k])))), glued(p, sep, l, h) == joined(a, sep, lo, hi)), trig(glued(p, sep, l, h), joined(a, sep, lo, hi)))
extern strings.Join(elems, sep) (s)
  modifies nothing
  ensures s == glued(arr(elems), sep, off(elems), off(elems) + len(elems))

func Slice.Join(s, sep) (r)
  prop P39
  modifies nothing
  allocs []any, []string, strings.Builder
  loop[_i int, _r string] imp(0 <= _i && _i <= len(s), _r == joined(arr(s), sep, off(s), off(s) + _i))
  loop[_i int, _r string] imp(0 <= _i + 1 && _i + 1 <= len(s), _r == joined(arr(s), sep, off(s), off(s) + _i + 1))
  loop[_i int, _r string] imp(0 <= _i && _i <= len(s), _r == ite(0 < _i && _i < len(s), joined(arr(s), sep, off(s), off(s) + _i) + sep, joined(arr(s), sep, off(s), off(s) + _i)))
  loop[_i int, _r string] imp(0 <= _i + 1 && _i + 1 <= len(s), _r == ite(0 < _i + 1 && _i + 1 < len(s), joined(arr(s), sep, off(s), off(s) + _i + 1) + sep, joined(arr(s), sep, off(s), off(s) + _i + 1)))
  loop[_i int, _b strings.Builder] imp(0 <= _i && _i <= len(s), _b.text == joined(arr(s), sep, off(s), off(s) + _i))
  loop[_i int, _p []string] imp(0 <= _i && _i <= len(s), forall(int(k), imp(0 <= k && k < _i, _p[k] == printed(box(s[k])))))
  loop[_i int, _p []string] len(_p) == _i
  loop[_i int, _p []string] len(_p) == _i + 1
  ensures[joined] r == joined(arr(s), sep, off(s), off(s) + len(s))
