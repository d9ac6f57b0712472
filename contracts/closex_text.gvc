package iox/managerx/closex

// what Error says of itself, and the name of the type of a value as %T prints it
fun errtext(error) string
// texts(list, lo, hi): for each of the errors lo..hi-1, in order, a line with its type and then its text and a line end
fun texts(_, int, int) string
axiom texts-none: forall(gmap(int, error)(a), int(lo), int(hi), imp(hi <= lo, texts(a, lo, hi) == ""), trig(texts(a, lo, hi)))
axiom texts-next: forall(gmap(int, error)(a), int(lo), int(c), int(d), imp(lo <= c && d == c + 1, texts(a, lo, d) == texts(a, lo, c) + ("error - " + (typename(a[c]) + ("\n" + (errtext(a[c]) + "\n"))))), trig(texts(a, lo, d), texts(a, lo, c)))

// assumed: Error tells the same each time and changes nothing
invoke error.Error(e) (s)
  ensures s == errtext(e)

// assumed of strings.Builder: what it holds grows by what is written
extern strings.(*Builder).WriteString(b, s) (n, err)
  modifies *b
  ensures b.text == old(b.text) + s
extern strings.(*Builder).WriteByte(b, c) (err)
  modifies *b
  ensures imp(c == 10, b.text == old(b.text) + "\n")
extern strings.(*Builder).WriteRune(b, r) (n, err)
  modifies *b
  ensures imp(r == 10, b.text == old(b.text) + "\n")
extern strings.(*Builder).String(b) (s)
  modifies nothing
  ensures s == b.text
extern strings.(*Builder).Grow(b, n)
  modifies *b
  ensures b.text == old(b.text)

extern fmt.Fprintf(w, format, args) (n, err)
  requires typeis(w, *strings.Builder)
  modifies *unbox(w, *strings.Builder)
  ensures imp(format == "error - %T\n" && len(args) == 1, unbox(w, *strings.Builder).text == old(unbox(w, *strings.Builder).text) + ("error - " + (typename(args[0]) + "\n")))
  ensures imp(format == "error - %T\n%s\n" && len(args) == 2 && typeis(args[1], string), unbox(w, *strings.Builder).text == old(unbox(w, *strings.Builder).text) + ("error - " + (typename(args[0]) + ("\n" + (unbox(args[1], string) + "\n")))))
  ensures imp((format == "%v") && len(args) == 1, unbox(w, *strings.Builder).text == old(unbox(w, *strings.Builder).text) + printed(args[0]))

extern fmt.Fprint(w, args) (n, err)
  requires typeis(w, *strings.Builder)
  modifies *unbox(w, *strings.Builder)
  ensures imp(len(args) == 1, unbox(w, *strings.Builder).text == old(unbox(w, *strings.Builder).text) + printed(args[0]))

pred line(e) := "error - " + (typename(e) + ("\n" + (errtext(e) + "\n")))
// lines put together with nothing between them (by induction on their number)
axiom glued-texts: forall(gmap(int, string)(p), gmap(int, error)(a), int(l), int(h), int(lo), int(hi), imp(h - l == hi - lo && forall(int(k), imp(0 <= k && k < h - l, p[l+k] == line(a[lo+k]))), glued(p, "", l, h) == texts(a, lo, hi)), trig(glued(p, "", l, h), texts(a, lo, hi)))

func ErrorList.Error(list) (s)
  prop P40
  modifies nothing
  allocs []any, []string, strings.Builder
  requires forall(int(i), imp(0 <= i && i < len(list), list[i] != nil))
  loop[_i int, _b strings.Builder] imp(0 <= _i && _i <= len(list), _b.text == texts(arr(list), off(list), off(list) + _i))
  loop[_i int, _r string] imp(0 <= _i && _i <= len(list), _r == texts(arr(list), off(list), off(list) + _i))
  loop[_i int, _p []string] imp(0 <= _i && _i <= len(list), forall(int(k), imp(0 <= k && k < _i, _p[k] == line(list[k]))))
  loop[_i int, _p []string] len(_p) == _i
  loop[_i int, _p []string] len(_p) == _i + 1
  ensures[texts] s == texts(arr(list), off(list), off(list) + len(list))

// the first ErrorList that an error is or wraps
fun wraps(error) bool
fun inner(error) any
axiom itself: forall(error(e), imp(typeis(e, ErrorList), wraps(e) && inner(e) == e), trig(wraps(e)))
extern errors.As(err, target) (ok)
  requires typeis(target, *ErrorList)
  modifies *unbox(target, *ErrorList)
  ensures ok == wraps(err)
  ensures *unbox(target, *ErrorList) == ite(ok, unbox(inner(err), ErrorList), old(*unbox(target, *ErrorList)))

func AsErrs(err) (list, ok)
  prop P40
  modifies nothing
  allocs ErrorList
  ensures[found] ok == wraps(err)
  ensures[list] imp(ok, list == unbox(inner(err), ErrorList))
  ensures[none] imp(!ok, list == nil)
