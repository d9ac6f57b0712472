package dsx/slicex

// kept(m, a, c): how many of m[a], ..., m[c-1] are true
fun kept(gmap[int, bool], int, int) int
axiom kept-none: forall(bind(gmap(int, bool), m), int(a), kept(m, a, a) == 0)
axiom kept-step: forall(bind(gmap(int, bool), m), int(a), int(c), int(d), imp(a <= c && d == c + 1, kept(m, a, d) == kept(m, a, c) + ite(m[c], 1, 0)), trig(kept(m, a, c), kept(m, a, d)))

lemma kept-same(m gmap(int, bool), l gmap(int, bool), a int, c int)
  prop P09
  requires a <= c && forall(int(i), imp(a <= i && i < c, m[i] == l[i]))
  induct int(k), a, c, kept(m, a, k) == kept(l, a, k)
  ensures kept(m, a, c) == kept(l, a, c)
  trigger kept(m, a, c), kept(l, a, c)

lemma kept-next(m gmap(int, bool), l gmap(int, bool), a int, c int, d int)
  prop P09
  requires a <= c && d == c + 1 && forall(int(i), imp(a <= i && i < c, m[i] == l[i]))
  assert kept(m, a, c) == kept(l, a, c)
  ensures kept(l, a, d) == kept(m, a, c) + ite(l[c], 1, 0)
  trigger kept(m, a, c), kept(l, a, d)

pred base(f) := old(ncalls(f))
pred seen(f) := ncalls(f) - old(ncalls(f))

func (*Slice).Filter(s, f) (r)
  prop P11
  requires s != nil
  requires f != nil
  modifies *s, elems(*s), calls(f)
  allocs []T
  loop[_i int] seen(f) == _i && 0 <= _i && _i <= old(len(*s))
  loop[_i int] seen(f) == _i + 1 && -1 <= _i && _i < old(len(*s))
  loop[_n int] forall(int(k), imp(_n <= k && k < old(len(*s)), old((*s)[k]) == at(ref(old(*s)), T, off(old(*s)) + k)))
  loop[_n int] _n == kept(retlog(bool, f), base(f), ncalls(f)) && 0 <= _n && _n <= seen(f)
  loop[_n int] forall(int(c), imp(base(f) <= c && c < ncalls(f) && retlog(bool, f)[c], 0 <= kept(retlog(bool, f), base(f), c) && kept(retlog(bool, f), base(f), c) < _n && at(ref(old(*s)), T, off(old(*s)) + kept(retlog(bool, f), base(f), c)) == old((*s)[c - ncalls(f)])))
  loop[_k Slice[T]] ref(_k) == ref(old(*s)) && off(_k) == off(old(*s)) && cap(_k) == cap(old(*s))
  loop[_k Slice[T]] len(_k) == kept(retlog(bool, f), base(f), ncalls(f)) && 0 <= len(_k) && len(_k) <= seen(f)
  loop[_k Slice[T]] forall(int(k), imp(len(_k) <= k && k < old(len(*s)), old((*s)[k]) == at(ref(old(*s)), T, off(old(*s)) + k)))
  loop[_k Slice[T]] cap(_k) == 0 || fresh(ref(_k))
  loop[_k Slice[T]] forall(int(c), imp(base(f) <= c && c < ncalls(f) && retlog(bool, f)[c], 0 <= kept(retlog(bool, f), base(f), c) && kept(retlog(bool, f), base(f), c) < len(_k) && _k[kept(retlog(bool, f), base(f), c)] == old((*s)[c - ncalls(f)])))
  loop forall(int(c), imp(base(f) <= c && c < ncalls(f), callarg(T, f, c) == old((*s)[c - ncalls(f)])))
  ensures r == s
  ensures[once] seen(f) == old(len(*s)) && forall(int(c), imp(base(f) <= c && c < ncalls(f), callarg(T, f, c) == old((*s)[c - ncalls(f)])))
  ensures[count] len(*s) == kept(retlog(bool, f), base(f), ncalls(f))
  ensures[kept] forall(int(c), imp(base(f) <= c && c < ncalls(f) && retlog(bool, f)[c], (*s)[kept(retlog(bool, f), base(f), c)] == old((*s)[c - ncalls(f)])))

func Slice.IndexOf(s, f) (r)
  prop P11
  requires f != nil
  modifies calls(f)
  loop[_i int] seen(f) == _i && 0 <= _i && _i <= len(s)
  loop[_i int] seen(f) == _i + 1 && -1 <= _i && _i < len(s)
  loop forall(int(c), imp(base(f) <= c && c < ncalls(f), callarg(T, f, c) == s[c - base(f)] && !callret(bool, f, c)))
  ensures[found] imp(r >= 0, r < len(s) && seen(f) == r + 1 && callret(bool, f, ncalls(f) - 1))
  ensures[missing] imp(r < 0, r == -1 && seen(f) == len(s))
  ensures[order] forall(int(c), imp(base(f) <= c && c < ncalls(f), callarg(T, f, c) == s[c - base(f)]))
  ensures[first] forall(int(c), imp(base(f) <= c && c < ncalls(f) && (r < 0 || c < ncalls(f) - 1), !callret(bool, f, c)))

func Slice.Contains(s, f) (r)
  prop P11
  requires f != nil
  modifies calls(f)
  loop[_i int] seen(f) == _i && 0 <= _i && _i <= len(s)
  loop[_i int] seen(f) == _i + 1 && -1 <= _i && _i < len(s)
  loop forall(int(c), imp(base(f) <= c && c < ncalls(f), callarg(T, f, c) == s[c - base(f)] && !callret(bool, f, c)))
  ensures[found] imp(r, 0 < seen(f) && seen(f) <= len(s) && callret(bool, f, ncalls(f) - 1))
  ensures[missing] imp(!r, seen(f) == len(s) && forall(int(c), imp(base(f) <= c && c < ncalls(f), !callret(bool, f, c))))
  ensures[order] forall(int(c), imp(base(f) <= c && c < ncalls(f), callarg(T, f, c) == s[c - base(f)]))

func Slice.Each(s, f)
  prop P11
  requires f != nil
  modifies calls(f)
  loop[_i int] seen(f) == _i && 0 <= _i && _i <= len(s)
  loop[_i int] seen(f) == _i + 1 && -1 <= _i && _i < len(s)
  loop forall(int(c), imp(base(f) <= c && c < ncalls(f), callarg(T, f, c) == s[c - base(f)]))
  ensures[once] seen(f) == len(s)
  ensures[order] forall(int(c), imp(base(f) <= c && c < ncalls(f), callarg(T, f, c) == s[c - base(f)]))

func Slice.ForEach(s, f)
  prop P11
  requires f != nil
  modifies calls(f)
  loop[_i int] seen(f) == _i && 0 <= _i && _i <= len(s)
  loop[_i int] seen(f) == _i + 1 && -1 <= _i && _i < len(s)
  loop forall(int(c), imp(base(f) <= c && c < ncalls(f), callarg(int, f, c, 0) == c - base(f) && callarg(T, f, c, 1) == s[c - base(f)]))
  ensures[once] seen(f) == len(s)
  ensures[order] forall(int(c), imp(base(f) <= c && c < ncalls(f), callarg(int, f, c, 0) == c - base(f) && callarg(T, f, c, 1) == s[c - base(f)]))
