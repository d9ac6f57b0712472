package dsx/slicex

pred clamp(i, n) := ite(i < 0, 0, ite(i > n, n, i))
pred lower(i, j, n) := ite(clamp(i, n) <= clamp(j, n), clamp(i, n), clamp(j, n))
pred upper(i, j, n) := ite(clamp(i, n) <= clamp(j, n), clamp(j, n), clamp(i, n))
// writes in place end where the result ends; a result beyond the capacity goes to new storage
pred touched(n, c, l) := ite(n <= c, n, l)
pred same(s) := len(*s) == old(len(*s)) && forall(int(i), imp(0 <= i && i < len(*s), (*s)[i] == old((*s)[i])))

func New(v) (s)
  prop P08
  ensures[wraps] s != nil && fresh(s) && len(*s) == len(v) && forall(int(i), imp(0 <= i && i < len(v), (*s)[i] == v[i]))
  modifies nothing
  allocs Slice

func (*Slice).Extend(s, size) (r)
  prop P08
  requires s != nil
  requires[practical] size < 1<<40
  modifies *s, elems(*s, len(*s), cap(*s))
  allocs []T
  ensures r == s
  ensures[grows] len(*s) == old(len(*s)) + ite(size < 0, 0, size)
  ensures[kept] forall(int(i), imp(0 <= i && i < old(len(*s)), (*s)[i] == old((*s)[i])))
  ensures[zeros] forall(int(i), imp(old(len(*s)) <= i && i < len(*s), (*s)[i] == zero(T)))

func (*Slice).Clear(s) (r)
  prop P08
  requires s != nil
  modifies *s
  ensures r == s
  ensures[empty] len(*s) == 0

func (*Slice).Set(s, i, v)
  prop P08
  requires s != nil
  modifies elems(*s)
  ensures[length] len(*s) == old(len(*s))
  ensures[there] imp(len(*s) > 0, (*s)[clamp(i, len(*s)-1)] == v)
  ensures[rest] forall(int(k), imp(0 <= k && k < len(*s) && k != clamp(i, len(*s)-1), (*s)[k] == old((*s)[k])))

func (*Slice).Get(s, i) (v)
  prop P08
  requires s != nil
  modifies nothing
  ensures[there] imp(len(*s) > 0, v == (*s)[clamp(i, len(*s)-1)])
  ensures[none] imp(len(*s) == 0, v == zero(T))

func (*Slice).Slice(s, i, j) (r)
  prop P08
  requires s != nil
  modifies *s
  ensures r == s
  ensures[length] len(*s) == upper(i, ite(j < 0, old(len(*s)) + j, j), old(len(*s))) - lower(i, ite(j < 0, old(len(*s)) + j, j), old(len(*s)))
  ensures[window] forall(int(k), imp(0 <= k && k < len(*s), (*s)[k] == old((*s)[k + lower(i, ite(j < 0, len(*s) + j, j), len(*s))])))

func (*Slice).Splice(s, i, j, v) (r)
  prop P08
  requires s != nil
  modifies *s, elems(*s, lower(i, j, len(*s)), touched(len(*s) - (upper(i, j, len(*s)) - lower(i, j, len(*s))) + len(v), cap(*s), lower(i, j, len(*s))))
  allocs []T
  ensures r == s
  ensures[length] len(*s) == old(len(*s)) - (upper(i, j, old(len(*s))) - lower(i, j, old(len(*s)))) + len(v)
  ensures[before] forall(int(k), imp(0 <= k && k < lower(i, j, old(len(*s))), (*s)[k] == old((*s)[k])))
  ensures[inserted] forall(int(k), imp(0 <= k && k < len(v), (*s)[lower(i, j, old(len(*s))) + k] == old(v[k])))
  ensures[after] forall(int(k), imp(lower(i, j, old(len(*s))) + len(v) <= k && k < len(*s),
     (*s)[k] == old((*s)[k - len(v) - lower(i, j, len(*s)) + upper(i, j, len(*s))])))

func (*Slice).Expand(s, i, v) (r)
  prop P08
  requires s != nil
  modifies *s, elems(*s, clamp(i, len(*s)), touched(len(*s) + len(v), cap(*s), 0))
  allocs []T
  ensures r == s
  ensures[length] len(*s) == old(len(*s)) + len(v)
  ensures[before] forall(int(k), imp(0 <= k && k < clamp(i, old(len(*s))), (*s)[k] == old((*s)[k])))
  ensures[inserted] forall(int(k), imp(0 <= k && k < len(v), (*s)[clamp(i, old(len(*s))) + k] == old(v[k])))
  ensures[after] forall(int(k), imp(clamp(i, old(len(*s))) + len(v) <= k && k < len(*s), (*s)[k] == old((*s)[k - len(v)])))

func (*Slice).Insert(s, i, v) (r)
  prop P08
  requires s != nil
  modifies *s, elems(*s, clamp(i, len(*s)), touched(len(*s) + 1, cap(*s), 0))
  allocs []T
  ensures r == s
  ensures[length] len(*s) == old(len(*s)) + 1
  ensures[before] forall(int(k), imp(0 <= k && k < clamp(i, old(len(*s))), (*s)[k] == old((*s)[k])))
  ensures[inserted] (*s)[clamp(i, old(len(*s)))] == v
  ensures[after] forall(int(k), imp(clamp(i, old(len(*s))) < k && k < len(*s), (*s)[k] == old((*s)[k-1])))

func (*Slice).Cut(s, i, j) (r)
  prop P08
  requires s != nil
  modifies *s, elems(*s, lower(i, j, len(*s)), len(*s) - (upper(i, j, len(*s)) - lower(i, j, len(*s))))
  allocs []T
  ensures r == s
  ensures[length] len(*s) == old(len(*s)) - (upper(i, j, old(len(*s))) - lower(i, j, old(len(*s))))
  ensures[before] forall(int(k), imp(0 <= k && k < lower(i, j, old(len(*s))), (*s)[k] == old((*s)[k])))
  ensures[after] forall(int(k), imp(lower(i, j, old(len(*s))) <= k && k < len(*s), (*s)[k] == old((*s)[k - lower(i, j, len(*s)) + upper(i, j, len(*s))])))

func (*Slice).Delete(s, i) (r)
  prop P08
  requires s != nil
  modifies *s, elems(*s)
  allocs []T
  ensures r == s
  ensures[range] imp(i < 0 || i >= old(len(*s)), same(s))
  ensures[length] imp(0 <= i && i < old(len(*s)), len(*s) == old(len(*s)) - 1)
  ensures[before] imp(0 <= i && i < old(len(*s)), forall(int(k), imp(0 <= k && k < i, (*s)[k] == old((*s)[k]))))
  ensures[after] imp(0 <= i && i < old(len(*s)), forall(int(k), imp(i <= k && k < len(*s), (*s)[k] == old((*s)[k+1]))))

func (*Slice).Push(s, v) (r)
  prop P08
  requires s != nil
  modifies *s, elems(*s, len(*s), touched(len(*s) + 1, cap(*s), 0))
  allocs []T
  ensures r == s
  ensures[length] len(*s) == old(len(*s)) + 1
  ensures[kept] forall(int(k), imp(0 <= k && k < old(len(*s)), (*s)[k] == old((*s)[k])))
  ensures[last] (*s)[old(len(*s))] == v

func (*Slice).Pop(s) (r)
  prop P08
  requires s != nil
  modifies *s, elems(*s)
  allocs []T
  ensures[none] imp(old(len(*s)) == 0, r == zero(T) && len(*s) == 0)
  ensures[last] imp(old(len(*s)) > 0, r == old((*s)[len(*s)-1]) && len(*s) == old(len(*s)) - 1)
  ensures[kept] forall(int(k), imp(0 <= k && k < len(*s), (*s)[k] == old((*s)[k])))

func (*Slice).UnShift(s, v) (r)
  prop P08
  requires s != nil
  modifies *s, elems(*s, 0, touched(len(*s) + 1, cap(*s), 0))
  allocs []T
  ensures r == s
  ensures[length] len(*s) == old(len(*s)) + 1
  ensures[first] (*s)[0] == v
  ensures[kept] forall(int(k), imp(0 < k && k < len(*s), (*s)[k] == old((*s)[k-1])))

func (*Slice).Shift(s) (r)
  prop P08
  requires s != nil
  modifies *s, elems(*s)
  allocs []T
  ensures[none] imp(old(len(*s)) == 0, r == zero(T) && len(*s) == 0)
  ensures[first] imp(old(len(*s)) > 0, r == old((*s)[0]) && len(*s) == old(len(*s)) - 1)
  ensures[kept] imp(old(len(*s)) > 0, forall(int(k), imp(0 <= k && k < len(*s), (*s)[k] == old((*s)[k+1]))))

func (*Slice).DeleteReplace(s, i) (r)
  prop P08
  requires s != nil
  modifies *s, elems(*s)
  ensures r == s
  ensures[none] imp(old(len(*s)) == 0, len(*s) == 0)
  ensures[length] imp(old(len(*s)) > 0, len(*s) == old(len(*s)) - 1)
  ensures[replaced] imp(clamp(i, old(len(*s))-1) < len(*s), (*s)[clamp(i, old(len(*s))-1)] == old((*s)[len(*s)-1]))
  ensures[rest] forall(int(k), imp(0 <= k && k < len(*s) && k != clamp(i, old(len(*s))-1), (*s)[k] == old((*s)[k])))

func Slice.Len(s) (n)
  prop P08
  modifies nothing
  ensures n == len(s)

func Slice.Finalize(s) (r)
  prop P08
  modifies nothing
  ensures len(r) == len(s) && forall(int(k), imp(0 <= k && k < len(s), r[k] == s[k]))
