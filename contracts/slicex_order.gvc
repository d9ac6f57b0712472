package dsx/slicex

// how far element k of the result lies behind in the original, 0 <= shift < n
pred shift(r, n) := ite(r >= 0, r % n, ite((0-r) % n == 0, 0, n - (0-r) % n))

func (*Slice).Copy(s) (r)
  prop P09
  requires s != nil
  modifies nothing
  allocs Slice, []T
  ensures[fresh] r != nil && fresh(r) && (cap(*r) == 0 || fresh(ref(*r)))
  ensures[equal] len(*r) == len(*s) && forall(int(k), imp(0 <= k && k < len(*s), (*r)[k] == (*s)[k]))

func (*Slice).Reverse(s) (r)
  prop P09
  requires s != nil
  modifies elems(*s)
  loop[_i int, _j int] _i + _j == len(*s) - 1
  loop[_i int] 0 <= _i && 2*_i <= len(*s) + 1
  loop[_i int] forall(int(k), imp(0 <= k && k < _i && k < len(*s), (*s)[k] == old((*s)[len(*s)-1-k]) && (*s)[len(*s)-1-k] == old((*s)[k])))
  loop[_i int] forall(int(k), imp(_i <= k && k < len(*s) - _i, (*s)[k] == old((*s)[k])))
  loop[_i int] -1 <= _i && 2*_i + 2 <= len(*s)
  loop[_i int] forall(int(k), imp(_i < k && k < len(*s) - 1 - _i, (*s)[k] == old((*s)[len(*s)-1-k])))
  loop[_i int] forall(int(k), imp(0 <= k && k < len(*s) && (k <= _i || k >= len(*s) - 1 - _i), (*s)[k] == old((*s)[k])))
  decreases[_i int] len(*s) - _i
  ensures r == s
  ensures[length] len(*s) == old(len(*s))
  ensures[mirrored] forall(int(k), imp(0 <= k && k < len(*s), (*s)[k] == old((*s)[len(*s)-1-k])))

func (*Slice).Rotate(s, n) (r)
  prop P09
  requires s != nil
  modifies *s, elems(*s, len(*s), cap(*s))
  allocs []T
  ensures r == s
  ensures[length] len(*s) == old(len(*s))
  ensures[rotated] forall(int(k), imp(0 <= k && k < len(*s),
     (*s)[k] == old((*s)[ite(k + shift(n, len(*s)) < len(*s), k + shift(n, len(*s)), k + shift(n, len(*s)) - len(*s))])))

func (*Slice).Repeat(s, cnt) (r)
  prop P09
  requires s != nil
  requires[practical] len(*s) * cnt < 1<<40
  modifies *s
  allocs []T
  loop[_i int, _r Slice[T]] 0 <= _i && len(_r) == len(*s) * _i
  loop[_i int] _i <= ite(cnt < 0, 0, cnt)
  loop[_i int, _r Slice[T]] forall(int(k), imp(_i > 0 && 0 <= k && k < len(*s), _r[k] == (*s)[k] && _r[len(_r)-len(*s)+k] == (*s)[k]))
  loop[_r Slice[T]] forall(int(k), imp(len(*s) <= k && k < len(_r), _r[k] == _r[k-len(*s)]))
  loop[_r Slice[T]] len(_r) == len(*s) * cnt
  loop[_i int, _r Slice[T]] forall(int(k), imp(_i > 0 && 0 <= k && k < len(*s), _r[k] == (*s)[k] && _r[len(*s)*_i - len(*s) + k] == (*s)[k]))
  loop[_i int, _r Slice[T]] forall(int(k), imp(len(*s) <= k && k < len(*s)*_i, _r[k] == _r[k-len(*s)]))
  decreases[_i int] cnt - _i
  ensures r == s
  ensures[length] len(*s) == old(len(*s)) * ite(cnt < 0, 0, cnt)
  ensures[first] imp(cnt > 0, forall(int(k), imp(0 <= k && k < old(len(*s)), (*s)[k] == old((*s)[k]))))
  ensures[repeats] forall(int(k), imp(old(len(*s)) <= k && k < len(*s), (*s)[k] == (*s)[k-old(len(*s))]))
  ensures[separate] cap(*s) == 0 || fresh(ref(*s))

// perm(a, b, lo, hi): b holds at lo..hi-1 the elements that a holds there, each as often, and elsewhere what a holds:
// the least relation that holds between an array and itself and is kept by exchanging two of these elements
fun perm(_, _, int, int) bool
axiom perm-self[T]: forall(gmap(int, T)(a), int(lo), int(hi), perm(a, a, lo, hi), trig(perm(a, a, lo, hi)))
axiom perm-swap[T]: forall(gmap(int, T)(a), gmap(int, T)(b), int(lo), int(hi), int(i), int(j), imp(perm(a, b, lo, hi) && lo <= i && i < hi && lo <= j && j < hi, perm(a, update(update(b, i, b[j]), j, b[i]), lo, hi)), trig(perm(a, update(update(b, i, b[j]), j, b[i]), lo, hi)))

extern math/rand.globalRand() (r)
  ensures r != nil

extern math/rand.(*Rand).Int63n(r, n) (v)
  requires r != nil && n > 0
  ensures 0 <= v && v < n

extern math/rand.(*Rand).int31n(r, n) (v)
  requires r != nil && n > 0
  ensures 0 <= v && v < n

extern math/rand.(*Rand).Intn(r, n) (v)
  requires r != nil && n > 0
  ensures 0 <= v && v < n

func (*Slice).Shuffle(s) (r)
  prop P09
  requires s != nil
  modifies elems(*s)
  loop perm(old(arr(*s)), arr(*s), off(*s), off(*s) + len(*s))
  ensures r == s
  ensures[length] len(*s) == old(len(*s))
  ensures[rearranged] perm(old(arr(*s)), arr(*s), off(*s), off(*s) + len(*s))
