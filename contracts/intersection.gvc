package timex/intersectionx

// The end points of the readings as tuples: o holds their places, t is -1 for a lower end, 0 for a middle, 1 for an upper end.
// up to x: lower ends at x or before, everything else before x; from x: upper ends at x or after, everything else after x
pred upto(o, t, j, x) := o[j] < x || o[j] == x && t[j] <= -1
pred from(o, t, j, x) := o[j] > x || o[j] == x && t[j] >= 1

// minus the sum of t[a], ..., t[b-1]
fun psum(gmap[int, int8], int, int) int
axiom psum-none: forall(bind(gmap(int, int8), t), int(a), psum(t, a, a) == 0, trig(psum(t, a, a)))
axiom psum-step: forall(bind(gmap(int, int8), t), int(a), int(c), int(d), imp(a <= c && d == c + 1, psum(t, a, d) == psum(t, a, c) - t[c]), trig(psum(t, a, c), psum(t, a, d)))
// how many of them are middles
fun mids(gmap[int, int64], gmap[int, int8], int, int) int
axiom mids-none: forall(bind(gmap(int, int64), o), bind(gmap(int, int8), t), int(a), mids(o, t, a, a) == 0, trig(mids(o, t, a, a)))
axiom mids-step: forall(bind(gmap(int, int64), o), bind(gmap(int, int8), t), int(a), int(c), int(d), imp(a <= c && d == c + 1, mids(o, t, a, d) == mids(o, t, a, c) + ite(t[c] == 0, 1, 0)), trig(mids(o, t, a, c), mids(o, t, a, d)))
// minus the sum of those up to x
fun cov(gmap[int, int64], gmap[int, int8], int, int, int) int
axiom cov-none: forall(bind(gmap(int, int64), o), bind(gmap(int, int8), t), int(a), int(x), cov(o, t, a, a, x) == 0, trig(cov(o, t, a, a, x)))
axiom cov-step: forall(bind(gmap(int, int64), o), bind(gmap(int, int8), t), int(a), int(c), int(d), int(x), imp(a <= c && d == c + 1, cov(o, t, a, d, x) == cov(o, t, a, c, x) - ite(upto(o, t, c, x), t[c], 0)), trig(cov(o, t, a, c, x), cov(o, t, a, d, x)))
// the sum of those from x
fun cov2(gmap[int, int64], gmap[int, int8], int, int, int) int
axiom cov2-none: forall(bind(gmap(int, int64), o), bind(gmap(int, int8), t), int(a), int(x), cov2(o, t, a, a, x) == 0, trig(cov2(o, t, a, a, x)))
axiom cov2-step: forall(bind(gmap(int, int64), o), bind(gmap(int, int8), t), int(a), int(c), int(d), int(x), imp(a <= c && d == c + 1, cov2(o, t, a, d, x) == cov2(o, t, a, c, x) + ite(from(o, t, c, x), t[c], 0)), trig(cov2(o, t, a, c, x), cov2(o, t, a, d, x)))
// the middles before x, and after x
fun mlt(gmap[int, int64], gmap[int, int8], int, int, int) int
axiom mlt-none: forall(bind(gmap(int, int64), o), bind(gmap(int, int8), t), int(a), int(x), mlt(o, t, a, a, x) == 0, trig(mlt(o, t, a, a, x)))
axiom mlt-step: forall(bind(gmap(int, int64), o), bind(gmap(int, int8), t), int(a), int(c), int(d), int(x), imp(a <= c && d == c + 1, mlt(o, t, a, d, x) == mlt(o, t, a, c, x) + ite(t[c] == 0 && o[c] < x, 1, 0)), trig(mlt(o, t, a, c, x), mlt(o, t, a, d, x)))
fun mgt(gmap[int, int64], gmap[int, int8], int, int, int) int
axiom mgt-none: forall(bind(gmap(int, int64), o), bind(gmap(int, int8), t), int(a), int(x), mgt(o, t, a, a, x) == 0, trig(mgt(o, t, a, a, x)))
axiom mgt-step: forall(bind(gmap(int, int64), o), bind(gmap(int, int8), t), int(a), int(c), int(d), int(x), imp(a <= c && d == c + 1, mgt(o, t, a, d, x) == mgt(o, t, a, c, x) + ite(t[c] == 0 && o[c] > x, 1, 0)), trig(mgt(o, t, a, c, x), mgt(o, t, a, d, x)))

// the first tuples lie up to x, all of them: their sum is the whole sum
lemma cov-all(o gmap(int, int64), t gmap(int, int8), a int, b int, x int)
  prop P22
  requires a <= b && forall(int(j), imp(a <= j && j < b, upto(o, t, j, x)))
  induct int(k), a, b, cov(o, t, a, k, x) == psum(t, a, k)
  ensures cov(o, t, a, b, x) == psum(t, a, b)
  trigger cov(o, t, a, b, x)

lemma cov-rest(o gmap(int, int64), t gmap(int, int8), a int, c int, b int, x int)
  prop P22
  requires a <= c && c <= b && forall(int(j), imp(c <= j && j < b, !upto(o, t, j, x)))
  induct int(k), c, b, cov(o, t, a, k, x) == cov(o, t, a, c, x)
  ensures cov(o, t, a, b, x) == cov(o, t, a, c, x)
  trigger cov(o, t, a, b, x), cov(o, t, a, c, x)

lemma cov-more(o gmap(int, int64), t gmap(int, int8), a int, c int, b int, x int)
  prop P22
  requires a <= c && c <= b && forall(int(j), imp(c <= j && j < b && upto(o, t, j, x), t[j] <= 0))
  induct int(k), c, b, cov(o, t, a, k, x) >= cov(o, t, a, c, x)
  ensures cov(o, t, a, b, x) >= cov(o, t, a, c, x)
  trigger cov(o, t, a, b, x), cov(o, t, a, c, x)

lemma cov-back(o gmap(int, int64), t gmap(int, int8), a int, c int, d int, x int)
  prop P22
  requires a <= c && d == c + 1
  ensures cov(o, t, a, d, x) == cov(o, t, a, c, x) - ite(upto(o, t, c, x), t[c], 0)
  trigger psum(t, a, c), cov(o, t, a, d, x)

lemma cov2-on(o gmap(int, int64), t gmap(int, int8), a int, c int, d int, x int)
  prop P22
  requires a <= c && d == c + 1
  ensures cov2(o, t, a, d, x) == cov2(o, t, a, c, x) + ite(from(o, t, c, x), t[c], 0)
  trigger psum(t, a, d), cov2(o, t, a, c, x)

// the last tuples
lemma cov2-all(o gmap(int, int64), t gmap(int, int8), a int, c int, b int, x int)
  prop P22
  requires a <= c && c <= b && forall(int(j), imp(c <= j && j < b, from(o, t, j, x)))
  induct int(k), c, b, cov2(o, t, a, k, x) - cov2(o, t, a, c, x) == psum(t, a, c) - psum(t, a, k)
  ensures cov2(o, t, a, b, x) - cov2(o, t, a, c, x) == psum(t, a, c) - psum(t, a, b)
  trigger cov2(o, t, a, b, x), cov2(o, t, a, c, x)

lemma cov2-rest(o gmap(int, int64), t gmap(int, int8), a int, b int, x int)
  prop P22
  requires a <= b && forall(int(j), imp(a <= j && j < b, !from(o, t, j, x)))
  induct int(k), a, b, cov2(o, t, a, k, x) == 0
  ensures cov2(o, t, a, b, x) == 0
  trigger cov2(o, t, a, b, x)

lemma cov2-less(o gmap(int, int64), t gmap(int, int8), a int, b int, x int)
  prop P22
  requires a <= b && forall(int(j), imp(a <= j && j < b && from(o, t, j, x), t[j] >= 0))
  induct int(k), a, b, cov2(o, t, a, k, x) >= 0
  ensures cov2(o, t, a, b, x) >= 0
  trigger cov2(o, t, a, b, x)

// both count the same when as many lower ends as upper ends are there
lemma cov-cov2(o gmap(int, int64), t gmap(int, int8), a int, b int, x int)
  prop P22
  requires a <= b && forall(int(j), imp(a <= j && j < b, -1 <= t[j] && t[j] <= 1))
  induct int(k), a, b, cov(o, t, a, k, x) - cov2(o, t, a, k, x) == psum(t, a, k)
  ensures cov(o, t, a, b, x) - cov2(o, t, a, b, x) == psum(t, a, b)
  trigger cov(o, t, a, b, x), psum(t, a, b)

lemma mlt-split(o gmap(int, int64), t gmap(int, int8), a int, c int, b int, x int)
  prop P22
  requires a <= c && c <= b && forall(int(j), imp(a <= j && j < c && t[j] == 0, o[j] < x)) && forall(int(j), imp(c <= j && j < b && t[j] == 0, o[j] >= x))
  induct int(k), a, c, mlt(o, t, a, k, x) == mids(o, t, a, k)
  induct int(k), c, b, mlt(o, t, a, k, x) == mids(o, t, a, c)
  ensures mlt(o, t, a, b, x) == mids(o, t, a, c)
  trigger mlt(o, t, a, b, x), mids(o, t, a, c)

lemma mgt-split(o gmap(int, int64), t gmap(int, int8), a int, c int, b int, x int)
  prop P22
  requires a <= c && c <= b && forall(int(j), imp(a <= j && j < c && t[j] == 0, o[j] <= x)) && forall(int(j), imp(c <= j && j < b && t[j] == 0, o[j] > x))
  induct int(k), a, c, mgt(o, t, a, k, x) == 0
  induct int(k), c, b, mgt(o, t, a, k, x) == mids(o, t, a, k) - mids(o, t, a, c)
  ensures mgt(o, t, a, b, x) == mids(o, t, a, b) - mids(o, t, a, c)
  trigger mgt(o, t, a, b, x), mids(o, t, a, c)

// the end points are in order
fun sorted(gmap[int, int64], gmap[int, int8], int, int) bool
axiom def-sorted: forall(bind(gmap(int, int64), o), bind(gmap(int, int8), t), int(a), int(b), iff(sorted(o, t, a, b), forall(int(p), int(q), imp(a <= p && p < q && q < b, o[p] < o[q] || o[p] == o[q] && t[p] <= t[q])) && forall(int(j), imp(a <= j && j < b, -1 <= t[j] && t[j] <= 1))), trig(sorted(o, t, a, b)))
// every point lies in less than v of the intervals that start in the first tuples
fun below(gmap[int, int64], gmap[int, int8], int, int, int) bool
axiom def-below: forall(bind(gmap(int, int64), o), bind(gmap(int, int8), t), int(a), int(i), int(v), iff(below(o, t, a, i, v), forall(int64(x), cov(o, t, a, i, x) < v, trig(cov(o, t, a, i, x)))), trig(below(o, t, a, i, v)))
// and of those that end in the last ones, from place e on
fun above(gmap[int, int64], gmap[int, int8], int, int, int, int) bool
axiom def-above: forall(bind(gmap(int, int64), o), bind(gmap(int, int8), t), int(a), int(e), int(b), int(v), iff(above(o, t, a, e, b, v), forall(int64(x), cov2(o, t, a, b, x) - cov2(o, t, a, e, x) < v, trig(cov2(o, t, a, e, x)))), trig(above(o, t, a, e, b, v)))
// l is the least point in v intervals, u the greatest
fun first(gmap[int, int64], gmap[int, int8], int, int, int, int) bool
axiom def-first: forall(bind(gmap(int, int64), o), bind(gmap(int, int8), t), int(a), int(b), int(v), int(l), iff(first(o, t, a, b, v, l), cov(o, t, a, b, l) >= v && forall(int64(x), imp(x < l, cov(o, t, a, b, x) < v), trig(cov(o, t, a, b, x)))), trig(first(o, t, a, b, v, l)))
fun last(gmap[int, int64], gmap[int, int8], int, int, int, int) bool
axiom def-last: forall(bind(gmap(int, int64), o), bind(gmap(int, int8), t), int(a), int(b), int(v), int(u), iff(last(o, t, a, b, v, u), cov(o, t, a, b, u) >= v && forall(int64(x), imp(x > u, cov(o, t, a, b, x) < v), trig(cov(o, t, a, b, x)))), trig(last(o, t, a, b, v, u)))

lemma below-none(o gmap(int, int64), t gmap(int, int8), a int, v int)
  prop P22
  requires v > 0
  ensures below(o, t, a, a, v)
  trigger below(o, t, a, a, v)

lemma below-more(o gmap(int, int64), t gmap(int, int8), a int, c int, d int, b int, v int)
  prop P22
  requires sorted(o, t, a, b) && a <= c && d == c + 1 && d <= b && below(o, t, a, c, v) && psum(t, a, d) < v
  assert forall(int64(x), cov(o, t, a, d, x) == cov(o, t, a, c, x) || cov(o, t, a, d, x) == psum(t, a, d), trig(cov(o, t, a, d, x)))
  ensures below(o, t, a, d, v)
  trigger sorted(o, t, a, b), below(o, t, a, c, v), below(o, t, a, d, v)

// where the scan from the left stops
lemma left-end(o gmap(int, int64), t gmap(int, int8), a int, i int, b int, v int, l int64)
  prop P22
  requires sorted(o, t, a, b) && a <= i && i < b && below(o, t, a, i, v) && psum(t, a, i) < v && psum(t, a, i) - t[i] >= v
  assert t[i] == -1
  assert cov(o, t, a, i+1, o[i]) == psum(t, a, i+1)
  assert cov(o, t, a, b, o[i]) >= cov(o, t, a, i+1, o[i])
  assert forall(int64(x), imp(x < o[i], cov(o, t, a, b, x) == cov(o, t, a, i, x)), trig(cov(o, t, a, b, x)))
  assert first(o, t, a, b, v, o[i])
  ensures iff(first(o, t, a, b, v, l), l == o[i]) && mlt(o, t, a, b, o[i]) == mids(o, t, a, i)
  trigger sorted(o, t, a, b), below(o, t, a, i, v), first(o, t, a, b, v, l)

lemma left-never(o gmap(int, int64), t gmap(int, int8), a int, b int, v int, l int64)
  prop P22
  requires below(o, t, a, b, v)
  ensures !first(o, t, a, b, v, l)
  trigger below(o, t, a, b, v), first(o, t, a, b, v, l)

lemma above-none(o gmap(int, int64), t gmap(int, int8), a int, b int, v int)
  prop P22
  requires v > 0
  ensures above(o, t, a, b, b, v)
  trigger above(o, t, a, b, b, v)

lemma above-more(o gmap(int, int64), t gmap(int, int8), a int, d int, e int, b int, v int)
  prop P22
  requires sorted(o, t, a, b) && a <= d && e == d + 1 && e <= b && above(o, t, a, e, b, v) && psum(t, a, d) - psum(t, a, b) < v
  assert forall(int64(x), cov2(o, t, a, d, x) == cov2(o, t, a, e, x) || cov2(o, t, a, b, x) - cov2(o, t, a, d, x) == psum(t, a, d) - psum(t, a, b), trig(cov2(o, t, a, d, x)))
  ensures above(o, t, a, d, b, v)
  trigger sorted(o, t, a, b), above(o, t, a, e, b, v), above(o, t, a, d, b, v)

// where the scan from the right stops
lemma right-end(o gmap(int, int64), t gmap(int, int8), a int, e int, b int, v int, u int64)
  prop P22
  requires sorted(o, t, a, b) && a < e && e <= b && above(o, t, a, e, b, v) && psum(t, a, b) == 0 && psum(t, a, e) < v && psum(t, a, e) + t[e-1] >= v
  assert t[e-1] == 1
  assert cov2(o, t, a, b, o[e-1]) - cov2(o, t, a, e-1, o[e-1]) == psum(t, a, e-1)
  assert cov2(o, t, a, e-1, o[e-1]) >= 0
  assert psum(t, a, e) == psum(t, a, e-1) - 1
  assert forall(int64(x), imp(x > o[e-1], cov2(o, t, a, e, x) == 0), trig(cov(o, t, a, b, x)))
  assert forall(int64(x), cov(o, t, a, b, x) == cov2(o, t, a, b, x), trig(cov(o, t, a, b, x)))
  assert last(o, t, a, b, v, o[e-1])
  ensures iff(last(o, t, a, b, v, u), u == o[e-1]) && mgt(o, t, a, b, o[e-1]) == mids(o, t, a, b) - mids(o, t, a, e)
  trigger sorted(o, t, a, b), above(o, t, a, e, b, v), last(o, t, a, b, v, u)

lemma right-never(o gmap(int, int64), t gmap(int, int8), a int, b int, v int, u int64)
  prop P22
  requires sorted(o, t, a, b) && a <= b && above(o, t, a, a, b, v) && psum(t, a, b) == 0
  assert cov(o, t, a, b, u) == cov2(o, t, a, b, u)
  ensures !last(o, t, a, b, v, u)
  trigger sorted(o, t, a, b), above(o, t, a, a, b, v), last(o, t, a, b, v, u)

lemma first-last(o gmap(int, int64), t gmap(int, int8), a int, b int, v int, l int64, u int64)
  prop P22
  requires first(o, t, a, b, v, l) && last(o, t, a, b, v, u)
  ensures l <= u
  trigger first(o, t, a, b, v, l), last(o, t, a, b, v, u)

pred o_(s) := arr(s, Offset)
pred t_(s) := arr(s, Type)
pred lo_(s) := off(s)
pred hi_(s) := off(s) + len(s)
pred fits(s, v, f, l, u) := first(o_(s), t_(s), lo_(s), hi_(s), v, l) && last(o_(s), t_(s), lo_(s), hi_(s), v, u) && mlt(o_(s), t_(s), lo_(s), hi_(s), l) + mgt(o_(s), t_(s), lo_(s), hi_(s), u) <= f
// no range is found with v of them and f outside
fun bad(gmap[int, int64], gmap[int, int8], int, int, int, int) bool
axiom def-bad: forall(bind(gmap(int, int64), o), bind(gmap(int, int8), t), int(a), int(b), int(v), int(f), iff(bad(o, t, a, b, v, f), forall(int64(l), int64(u), !(first(o, t, a, b, v, l) && last(o, t, a, b, v, u) && mlt(o, t, a, b, l) + mgt(o, t, a, b, u) <= f), trig(first(o, t, a, b, v, l), last(o, t, a, b, v, u)))), trig(bad(o, t, a, b, v, f)))
pred fails(s, h) := forall(int(g), int(v), imp(0 <= g && g < h && v == len(s) / 3 - g, bad(o_(s), t_(s), lo_(s), hi_(s), v, g)), trig(bad(o_(s), t_(s), lo_(s), hi_(s), v, g)))

func intersection(s) (lower, upper, ok)
  prop P22
  requires forall(int(j), imp(lo_(s) <= j && j < hi_(s), -1 <= t_(s)[j] && t_(s)[j] <= 1))
  requires sorted(o_(s), t_(s), lo_(s), hi_(s)) && psum(t_(s), lo_(s), hi_(s)) == 0 && 3 * mids(o_(s), t_(s), lo_(s), hi_(s)) == len(s)
  modifies nothing
  uses below-none below-more left-end left-never above-none above-more right-end right-never first-last def-bad
  loop[_f int64] _f >= 0 && fails(s, _f)
  loop[_e int64, _i int] _e == psum(t_(s), lo_(s), lo_(s) + _i + 1) && 0 - _i - 1 <= _e && _e <= _i + 1 && _i >= -1
  loop[_m int64, _i int] _m == mids(o_(s), t_(s), lo_(s), lo_(s) + _i + 1) && 0 <= _m && _m <= _i + 1
  loop[_i int, _f int64] -1 <= _i && _i < len(s) && below(o_(s), t_(s), lo_(s), lo_(s) + _i + 1, len(s) / 3 - _f)
  loop[_e int64, _i int] -1 <= _i && _i < len(s) && _e == psum(t_(s), lo_(s), lo_(s) + _i + 1) && _e <= len(s) - _i - 1 && 0 - (len(s) - _i - 1) <= _e
  loop[_i int, _f int64] -1 <= _i && _i < len(s) && above(o_(s), t_(s), lo_(s), lo_(s) + _i + 1, hi_(s), len(s) / 3 - _f)
  loop[_m int64, _i int] _m == pre(_m) + mids(o_(s), t_(s), lo_(s), hi_(s)) - mids(o_(s), t_(s), lo_(s), lo_(s) + _i + 1) && -1 <= _i && _i < len(s) && pre(_m) <= _m && _m <= pre(_m) + (len(s) - _i - 1)
  loop[_e int64, _f int64] _e < len(s) / 3 - _f
  ensures[found] imp(ok, exists(int(f), 0 <= f && f < len(s) / 3 / 2 && fits(s, len(s) / 3 - f, f, lower, upper) && fails(s, f)))
  ensures[none] imp(!ok, fails(s, len(s) / 3 / 2))

// ---------- the intervals ----------

// how many of the intervals o±c contain x, and how many of their middles lie before and after x
fun inside(gmap[int, int64], gmap[int, int64], int, int, int) int
axiom inside-none: forall(bind(gmap(int, int64), o), bind(gmap(int, int64), c), int(a), int(x), inside(o, c, a, a, x) == 0, trig(inside(o, c, a, a, x)))
axiom inside-step: forall(bind(gmap(int, int64), o), bind(gmap(int, int64), c), int(a), int(k), int(d), int(x), imp(a <= k && d == k + 1, inside(o, c, a, d, x) == inside(o, c, a, k, x) + ite(o[k] - c[k] <= x && x <= o[k] + c[k], 1, 0)), trig(inside(o, c, a, k, x), inside(o, c, a, d, x)))
fun before(gmap[int, int64], int, int, int) int
axiom before-none: forall(bind(gmap(int, int64), o), int(a), int(x), before(o, a, a, x) == 0, trig(before(o, a, a, x)))
axiom before-step: forall(bind(gmap(int, int64), o), int(a), int(k), int(d), int(x), imp(a <= k && d == k + 1, before(o, a, d, x) == before(o, a, k, x) + ite(o[k] < x, 1, 0)), trig(before(o, a, k, x), before(o, a, d, x)))
fun after(gmap[int, int64], int, int, int) int
axiom after-none: forall(bind(gmap(int, int64), o), int(a), int(x), after(o, a, a, x) == 0, trig(after(o, a, a, x)))
axiom after-step: forall(bind(gmap(int, int64), o), int(a), int(k), int(d), int(x), imp(a <= k && d == k + 1, after(o, a, d, x) == after(o, a, k, x) + ite(o[k] > x, 1, 0)), trig(after(o, a, k, x), after(o, a, d, x)))
// l is the least point in v of the intervals, u the greatest
fun least_(gmap[int, int64], gmap[int, int64], int, int, int, int) bool
axiom def-least: forall(bind(gmap(int, int64), o), bind(gmap(int, int64), c), int(a), int(b), int(v), int(l), iff(least_(o, c, a, b, v, l), inside(o, c, a, b, l) >= v && forall(int64(x), imp(x < l, inside(o, c, a, b, x) < v), trig(inside(o, c, a, b, x)))), trig(least_(o, c, a, b, v, l)))
fun greatest(gmap[int, int64], gmap[int, int64], int, int, int, int) bool
axiom def-greatest: forall(bind(gmap(int, int64), o), bind(gmap(int, int64), c), int(a), int(b), int(v), int(u), iff(greatest(o, c, a, b, v, u), inside(o, c, a, b, u) >= v && forall(int64(x), imp(x > u, inside(o, c, a, b, x) < v), trig(inside(o, c, a, b, x)))), trig(greatest(o, c, a, b, v, u)))

// the end points count what the intervals count
fun counts(gmap[int, int64], gmap[int, int8], int, int, gmap[int, int64], gmap[int, int64], int, int) bool
axiom def-counts: forall(bind(gmap(int, int64), o), bind(gmap(int, int8), t), int(a), int(b), bind(gmap(int, int64), p), bind(gmap(int, int64), c), int(d), int(e), iff(counts(o, t, a, b, p, c, d, e), psum(t, a, b) == 0 && mids(o, t, a, b) == e - d && forall(int(x), cov(o, t, a, b, x) == inside(p, c, d, e, x) && mlt(o, t, a, b, x) == before(p, d, e, x) && mgt(o, t, a, b, x) == after(p, d, e, x), trig(cov(o, t, a, b, x)), trig(mlt(o, t, a, b, x)), trig(mgt(o, t, a, b, x)), trig(inside(p, c, d, e, x)))), trig(counts(o, t, a, b, p, c, d, e)))
// sorting keeps sums and counts
fun same(gmap[int, int64], gmap[int, int8], int, int, gmap[int, int64], gmap[int, int8]) bool
axiom def-same: forall(bind(gmap(int, int64), o), bind(gmap(int, int8), t), int(a), int(b), bind(gmap(int, int64), p), bind(gmap(int, int8), q), iff(same(o, t, a, b, p, q), psum(t, a, b) == psum(q, a, b) && mids(o, t, a, b) == mids(p, q, a, b) && forall(int(x), cov(o, t, a, b, x) == cov(p, q, a, b, x) && mlt(o, t, a, b, x) == mlt(p, q, a, b, x) && mgt(o, t, a, b, x) == mgt(p, q, a, b, x), trig(cov(p, q, a, b, x)), trig(mlt(p, q, a, b, x)), trig(mgt(p, q, a, b, x)))), trig(same(o, t, a, b, p, q)))

// exchanging two end points keeps them
lemma swapped(o gmap(int, int64), t gmap(int, int8), p gmap(int, int64), q gmap(int, int8), a int, b int, i int, j int, x int)
  prop P22
  requires a <= i && i < j && j < b && p[i] == o[j] && q[i] == t[j] && p[j] == o[i] && q[j] == t[i] && forall(int(k), imp(k != i && k != j, p[k] == o[k] && q[k] == t[k]))
  induct int(k), a, i, psum(q, a, k) == psum(t, a, k) && mids(p, q, a, k) == mids(o, t, a, k) && cov(p, q, a, k, x) == cov(o, t, a, k, x) && mlt(p, q, a, k, x) == mlt(o, t, a, k, x) && mgt(p, q, a, k, x) == mgt(o, t, a, k, x)
  induct int(k), i+1, j, psum(q, a, k) == psum(t, a, k) + t[i] - t[j] && mids(p, q, a, k) == mids(o, t, a, k) + ite(t[j] == 0, 1, 0) - ite(t[i] == 0, 1, 0) && cov(p, q, a, k, x) == cov(o, t, a, k, x) + ite(upto(o, t, i, x), t[i], 0) - ite(upto(o, t, j, x), t[j], 0) && mlt(p, q, a, k, x) == mlt(o, t, a, k, x) + ite(t[j] == 0 && o[j] < x, 1, 0) - ite(t[i] == 0 && o[i] < x, 1, 0) && mgt(p, q, a, k, x) == mgt(o, t, a, k, x) + ite(t[j] == 0 && o[j] > x, 1, 0) - ite(t[i] == 0 && o[i] > x, 1, 0)
  induct int(k), j+1, b, psum(q, a, k) == psum(t, a, k) && mids(p, q, a, k) == mids(o, t, a, k) && cov(p, q, a, k, x) == cov(o, t, a, k, x) && mlt(p, q, a, k, x) == mlt(o, t, a, k, x) && mgt(p, q, a, k, x) == mgt(o, t, a, k, x)
  ensures psum(q, a, b) == psum(t, a, b) && mids(p, q, a, b) == mids(o, t, a, b) && cov(p, q, a, b, x) == cov(o, t, a, b, x) && mlt(p, q, a, b, x) == mlt(o, t, a, b, x) && mgt(p, q, a, b, x) == mgt(o, t, a, b, x)

lemma psum-three(t gmap(int, int8), a int, c int, d int)
  prop P22
  requires a <= c && d == c + 3
  assert psum(t, a, c+1) == psum(t, a, c) + (0 - t[c])
  assert psum(t, a, c+2) == psum(t, a, c+1) + (0 - t[c+1])
  assert psum(t, a, c+3) == psum(t, a, c+2) + (0 - t[c+2])
  ensures psum(t, a, d) == psum(t, a, c) + (0 - t[c]) + (0 - t[c+1]) + (0 - t[c+2])
  trigger psum(t, a, c), psum(t, a, d)

lemma mids-three(o gmap(int, int64), t gmap(int, int8), a int, c int, d int)
  prop P22
  requires a <= c && d == c + 3
  assert mids(o, t, a, c+1) == mids(o, t, a, c) + ite(t[c] == 0, 1, 0)
  assert mids(o, t, a, c+2) == mids(o, t, a, c+1) + ite(t[c+1] == 0, 1, 0)
  assert mids(o, t, a, c+3) == mids(o, t, a, c+2) + ite(t[c+2] == 0, 1, 0)
  ensures mids(o, t, a, d) == mids(o, t, a, c) + ite(t[c] == 0, 1, 0) + ite(t[c+1] == 0, 1, 0) + ite(t[c+2] == 0, 1, 0)
  trigger mids(o, t, a, c), mids(o, t, a, d)

lemma cov-three(o gmap(int, int64), t gmap(int, int8), a int, c int, d int, x int)
  prop P22
  requires a <= c && d == c + 3
  assert cov(o, t, a, c+1, x) == cov(o, t, a, c, x) + ite(upto(o, t, c, x), 0 - t[c], 0)
  assert cov(o, t, a, c+2, x) == cov(o, t, a, c+1, x) + ite(upto(o, t, c+1, x), 0 - t[c+1], 0)
  assert cov(o, t, a, c+3, x) == cov(o, t, a, c+2, x) + ite(upto(o, t, c+2, x), 0 - t[c+2], 0)
  ensures cov(o, t, a, d, x) == cov(o, t, a, c, x) + ite(upto(o, t, c, x), 0 - t[c], 0) + ite(upto(o, t, c+1, x), 0 - t[c+1], 0) + ite(upto(o, t, c+2, x), 0 - t[c+2], 0)
  trigger cov(o, t, a, c, x), cov(o, t, a, d, x)

lemma mlt-three(o gmap(int, int64), t gmap(int, int8), a int, c int, d int, x int)
  prop P22
  requires a <= c && d == c + 3
  assert mlt(o, t, a, c+1, x) == mlt(o, t, a, c, x) + ite(t[c] == 0 && o[c] < x, 1, 0)
  assert mlt(o, t, a, c+2, x) == mlt(o, t, a, c+1, x) + ite(t[c+1] == 0 && o[c+1] < x, 1, 0)
  assert mlt(o, t, a, c+3, x) == mlt(o, t, a, c+2, x) + ite(t[c+2] == 0 && o[c+2] < x, 1, 0)
  ensures mlt(o, t, a, d, x) == mlt(o, t, a, c, x) + ite(t[c] == 0 && o[c] < x, 1, 0) + ite(t[c+1] == 0 && o[c+1] < x, 1, 0) + ite(t[c+2] == 0 && o[c+2] < x, 1, 0)
  trigger mlt(o, t, a, c, x), mlt(o, t, a, d, x)

lemma mgt-three(o gmap(int, int64), t gmap(int, int8), a int, c int, d int, x int)
  prop P22
  requires a <= c && d == c + 3
  assert mgt(o, t, a, c+1, x) == mgt(o, t, a, c, x) + ite(t[c] == 0 && o[c] > x, 1, 0)
  assert mgt(o, t, a, c+2, x) == mgt(o, t, a, c+1, x) + ite(t[c+1] == 0 && o[c+1] > x, 1, 0)
  assert mgt(o, t, a, c+3, x) == mgt(o, t, a, c+2, x) + ite(t[c+2] == 0 && o[c+2] > x, 1, 0)
  ensures mgt(o, t, a, d, x) == mgt(o, t, a, c, x) + ite(t[c] == 0 && o[c] > x, 1, 0) + ite(t[c+1] == 0 && o[c+1] > x, 1, 0) + ite(t[c+2] == 0 && o[c+2] > x, 1, 0)
  trigger mgt(o, t, a, c, x), mgt(o, t, a, d, x)


// the same end points at another place
lemma moved(o gmap(int, int64), t gmap(int, int8), a int, b int, p gmap(int, int64), q gmap(int, int8), c int, d int, x int)
  prop P22
  requires a <= b && d - c == b - a && forall(int(j), imp(c <= j && j < d, p[j] == o[j-c+a] && q[j] == t[j-c+a]), trig(p[j]), trig(q[j]))
  induct int(k), 0, b-a, psum(q, c, c+k) == psum(t, a, a+k) && mids(p, q, c, c+k) == mids(o, t, a, a+k) && cov(p, q, c, c+k, x) == cov(o, t, a, a+k, x) && mlt(p, q, c, c+k, x) == mlt(o, t, a, a+k, x) && mgt(p, q, c, c+k, x) == mgt(o, t, a, a+k, x)
  ensures psum(q, c, d) == psum(t, a, b) && mids(p, q, c, d) == mids(o, t, a, b) && cov(p, q, c, d, x) == cov(o, t, a, b, x) && mlt(p, q, c, d, x) == mlt(o, t, a, b, x) && mgt(p, q, c, d, x) == mgt(o, t, a, b, x)
  trigger cov(p, q, c, d, x), cov(o, t, a, b, x)

lemma counts-none(o gmap(int, int64), t gmap(int, int8), a int, p gmap(int, int64), c gmap(int, int64), d int)
  prop P22
  ensures counts(o, t, a, a, p, c, d, d)
  trigger counts(o, t, a, a, p, c, d, d)

// three more end points for one more interval, in any order
lemma counts-more(o gmap(int, int64), t gmap(int, int8), a int, b int, p gmap(int, int64), q gmap(int, int8), c int, d int, iv gmap(int, int64), cb gmap(int, int64), i int, k int, m int)
  prop P22
  requires counts(o, t, a, b, iv, cb, i, k) && a <= b && i <= k && m == k + 1 && d - c == b - a + 3
  requires forall(int(j), imp(c <= j && j < d-3, p[j] == o[j-c+a] && q[j] == t[j-c+a]), trig(p[j]), trig(q[j]))
  requires q[d-3] + q[d-2] + q[d-1] == 0 && ite(q[d-3] == 0, 1, 0) + ite(q[d-2] == 0, 1, 0) + ite(q[d-1] == 0, 1, 0) == 1
  requires forall(int(x), ite(upto(p, q, d-3, x), 0 - q[d-3], 0) + ite(upto(p, q, d-2, x), 0 - q[d-2], 0) + ite(upto(p, q, d-1, x), 0 - q[d-1], 0) == ite(iv[k] - cb[k] <= x && x <= iv[k] + cb[k], 1, 0))
  requires forall(int(x), ite(q[d-3] == 0 && p[d-3] < x, 1, 0) + ite(q[d-2] == 0 && p[d-2] < x, 1, 0) + ite(q[d-1] == 0 && p[d-1] < x, 1, 0) == ite(iv[k] < x, 1, 0))
  requires forall(int(x), ite(q[d-3] == 0 && p[d-3] > x, 1, 0) + ite(q[d-2] == 0 && p[d-2] > x, 1, 0) + ite(q[d-1] == 0 && p[d-1] > x, 1, 0) == ite(iv[k] > x, 1, 0))
  uses moved psum-three mids-three cov-three mlt-three mgt-three def-counts
  assert cov(p, q, c, d-3, 0) == cov(o, t, a, b, 0)
  assert forall(int(x), cov(p, q, c, d-3, x) == cov(o, t, a, b, x) && mlt(p, q, c, d-3, x) == mlt(o, t, a, b, x) && mgt(p, q, c, d-3, x) == mgt(o, t, a, b, x), trig(cov(o, t, a, b, x)))
  assert psum(q, c, d) == 0 && mids(p, q, c, d) == m - i
  assert forall(int(x), cov(p, q, c, d, x) == inside(iv, cb, i, m, x), trig(cov(p, q, c, d, x)))
  assert forall(int(x), mlt(p, q, c, d, x) == before(iv, i, m, x), trig(mlt(p, q, c, d, x)))
  assert forall(int(x), mgt(p, q, c, d, x) == after(iv, i, m, x), trig(mgt(p, q, c, d, x)))
  ensures counts(p, q, c, d, iv, cb, i, m)
  trigger counts(o, t, a, b, iv, cb, i, k), counts(p, q, c, d, iv, cb, i, m)

lemma counts-sorted(o gmap(int, int64), t gmap(int, int8), a int, b int, p gmap(int, int64), q gmap(int, int8), iv gmap(int, int64), cb gmap(int, int64), i int, k int)
  prop P22
  requires counts(o, t, a, b, iv, cb, i, k) && same(o, t, a, b, p, q)
  uses def-counts def-same
  ensures counts(p, q, a, b, iv, cb, i, k)
  trigger counts(o, t, a, b, iv, cb, i, k), same(o, t, a, b, p, q)

// what the scan finds among the end points is what the intervals have
lemma found(o gmap(int, int64), t gmap(int, int8), a int, b int, iv gmap(int, int64), cb gmap(int, int64), i int, k int, v int, x int)
  prop P22
  requires counts(o, t, a, b, iv, cb, i, k)
  uses def-counts def-first def-last def-least def-greatest
  ensures iff(first(o, t, a, b, v, x), least_(iv, cb, i, k, v, x)) && iff(last(o, t, a, b, v, x), greatest(iv, cb, i, k, v, x)) && mlt(o, t, a, b, x) == before(iv, i, k, x) && mgt(o, t, a, b, x) == after(iv, i, k, x)
  trigger counts(o, t, a, b, iv, cb, i, k), first(o, t, a, b, v, x)
  trigger counts(o, t, a, b, iv, cb, i, k), last(o, t, a, b, v, x)
  trigger counts(o, t, a, b, iv, cb, i, k), least_(iv, cb, i, k, v, x)
  trigger counts(o, t, a, b, iv, cb, i, k), greatest(iv, cb, i, k, v, x)

// ---------- sorting ----------

// sort.Sort orders by Less and moves elements only with Swap: the order of Less comes out (trusted), and what an exchange
// of two elements keeps (lemma swapped) stays
pred lessIn(o, t, i, j) := o[i] < o[j] || o[i] == o[j] && t[i] < t[j]

func iSlice.Len(s) (n)
  prop P22
  modifies nothing
  ensures n == len(s)

func iSlice.Less(s, i, j) (r)
  prop P22
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  modifies nothing
  ensures[order] iff(r, lessIn(o_(s), t_(s), lo_(s) + i, lo_(s) + j))

func iSlice.Swap(s, i, j)
  prop P22
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  modifies elems(s)
  ensures[exchanged] s[i] == old(s[j]) && s[j] == old(s[i])
  ensures[rest] forall(int(k), imp(0 <= k && k < len(s) && k != i && k != j, s[k] == old(s[k])))

pred data_(d) := ite(typeis(d, *iSlice), *unbox(d, *iSlice), unbox(d, iSlice))
extern sort.Sort(data)
  requires typeis(data, *iSlice) && unbox(data, *iSlice) != nil || typeis(data, iSlice)
  modifies elems(data_(data))
  ensures forall(int(i), int(j), imp(lo_(data_(data)) <= i && i < j && j < hi_(data_(data)), !lessIn(o_(data_(data)), t_(data_(data)), j, i)))
  ensures imp(forall(int(j), imp(lo_(data_(data)) <= j && j < hi_(data_(data)), -1 <= old(t_(data_(data)))[j] && old(t_(data_(data)))[j] <= 1)), forall(int(j), imp(lo_(data_(data)) <= j && j < hi_(data_(data)), -1 <= t_(data_(data))[j] && t_(data_(data))[j] <= 1)))
  ensures same(old(o_(data_(data))), old(t_(data_(data))), lo_(data_(data)), hi_(data_(data)), o_(data_(data)), t_(data_(data)))

pred fitsI(s, v, f, l, u) := least_(o_(s), arr(s, ConfidenceBand), lo_(s), hi_(s), v, l) && greatest(o_(s), arr(s, ConfidenceBand), lo_(s), hi_(s), v, u) && before(o_(s), lo_(s), hi_(s), l) + after(o_(s), lo_(s), hi_(s), u) <= f
fun badI(gmap[int, int64], gmap[int, int64], int, int, int, int) bool
axiom def-badI: forall(bind(gmap(int, int64), o), bind(gmap(int, int64), c), int(a), int(b), int(v), int(f), iff(badI(o, c, a, b, v, f), forall(int64(l), int64(u), !(least_(o, c, a, b, v, l) && greatest(o, c, a, b, v, u) && before(o, a, b, l) + after(o, a, b, u) <= f), trig(least_(o, c, a, b, v, l), greatest(o, c, a, b, v, u)))), trig(badI(o, c, a, b, v, f)))
pred failsI(s, h) := forall(int(g), int(v), imp(0 <= g && g < h && v == len(s) - g, badI(o_(s), arr(s, ConfidenceBand), lo_(s), hi_(s), v, g)), trig(badI(o_(s), arr(s, ConfidenceBand), lo_(s), hi_(s), v, g)))

lemma found-none(o gmap(int, int64), t gmap(int, int8), a int, b int, iv gmap(int, int64), cb gmap(int, int64), i int, k int, v int, f int)
  prop P22
  requires counts(o, t, a, b, iv, cb, i, k)
  uses found def-bad def-badI
  ensures iff(bad(o, t, a, b, v, f), badI(iv, cb, i, k, v, f))
  trigger counts(o, t, a, b, iv, cb, i, k), bad(o, t, a, b, v, f)
  trigger counts(o, t, a, b, iv, cb, i, k), badI(iv, cb, i, k, v, f)

lemma counts-sums(o gmap(int, int64), t gmap(int, int8), a int, b int, iv gmap(int, int64), cb gmap(int, int64), i int, k int)
  prop P22
  requires counts(o, t, a, b, iv, cb, i, k)
  uses def-counts
  ensures psum(t, a, b) == 0 && mids(o, t, a, b) == k - i
  trigger counts(o, t, a, b, iv, cb, i, k)

func Intersection(intervals) (lo, hi, ok)
  prop P22
  requires len(intervals) <= 1125899906842624
  requires forall(int(i), imp(0 <= i && i < len(intervals), intervals[i].ConfidenceBand >= 0 && intervals[i].Offset - intervals[i].ConfidenceBand >= -9223372036854775808 && intervals[i].Offset + intervals[i].ConfidenceBand <= 9223372036854775807))
  modifies nothing
  uses counts-none counts-more counts-sorted counts-sums found found-none def-sorted
  loop[_s iSlice, _i int] 0 <= _i && _i <= len(intervals) && len(_s) == 3 * _i && counts(o_(_s), t_(_s), lo_(_s), hi_(_s), o_(intervals), arr(intervals, ConfidenceBand), lo_(intervals), lo_(intervals) + _i)
  loop[_s iSlice, _i int] -1 <= _i && _i < len(intervals) && len(_s) == 3 * _i + 3 && counts(o_(_s), t_(_s), lo_(_s), hi_(_s), o_(intervals), arr(intervals, ConfidenceBand), lo_(intervals), lo_(intervals) + _i + 1)
  loop[_s iSlice] forall(int(j), imp(0 <= j && j < len(_s), -1 <= _s[j].Type && _s[j].Type <= 1))
  ensures[single] imp(len(intervals) == 1, ok && lo == intervals[0].Offset - intervals[0].ConfidenceBand && hi == intervals[0].Offset + intervals[0].ConfidenceBand)
  ensures[found] imp(len(intervals) != 1 && ok, exists(int(f), 0 <= f && f < len(intervals) / 2 && fitsI(intervals, len(intervals) - f, f, lo, hi) && failsI(intervals, f)))
  ensures[none] imp(len(intervals) != 1 && !ok, failsI(intervals, len(intervals) / 2))
