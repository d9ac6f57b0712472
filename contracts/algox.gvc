dep golang.org/x/exp/slices
package algox/searchx

// the comparison of element k with the one looked for
pred c(less, s, x, k) := apply(int, less, s[k], x)
// smaller elements, then equal ones, then larger ones
pred grouped(less, s, x) := forall(int(a), int(b), imp(0 <= a && a <= b && b < len(s), imp(c(less, s, x, a) >= 0, c(less, s, x, b) >= 0) && imp(c(less, s, x, a) > 0, c(less, s, x, b) > 0)))
pred sorted(s) := forall(int(a), int(b), imp(0 <= a && a <= b && b < len(s), !(s[b] < s[a])))

func SearchCustom(s, x, less) (r, ok)
  prop P20
  pure less
  requires less != nil
  modifies nothing
  loop[_i int] imp(_i > 0, c(less, s, x, _i-1) < 0)
  loop[_i int] imp(_i < len(s), c(less, s, x, _i) >= 0)
  ensures[range] 0 <= r && r <= len(s)
  ensures[edge] imp(r > 0, c(less, s, x, r-1) < 0) && imp(r < len(s), c(less, s, x, r) >= 0)
  ensures[ok] iff(ok, r < len(s) && c(less, s, x, r) == 0)
  ensures[least] imp(grouped(less, s, x), forall(int(k), imp(0 <= k && k < len(s), iff(c(less, s, x, k) < 0, k < r))))
  ensures[found] imp(grouped(less, s, x), iff(ok, exists(int(k), 0 <= k && k < len(s) && c(less, s, x, k) == 0)))

func Search(s, x) (r, ok)
  prop P20
  modifies nothing
  ensures[range] 0 <= r && r <= len(s)
  ensures[edge] imp(r > 0, s[r-1] < x) && imp(r < len(s), !(s[r] < x))
  ensures[ok] iff(ok, r < len(s) && s[r] == x)
  ensures[least] imp(sorted(s), forall(int(k), imp(0 <= k && k < len(s), iff(s[k] < x, k < r))))
  ensures[found] imp(sorted(s), iff(ok, exists(int(k), 0 <= k && k < len(s) && s[k] == x)))

dep golang.org/x/exp/slices
pred moved(a, b, lo, hi) := forall(int(i), imp(lo <= i && i < hi, lo <= src(a, b, lo, hi, i) && src(a, b, lo, hi, i) < hi && b[i] == a[src(a, b, lo, hi, i)])) &&
  forall(int(i), int(j), imp(lo <= i && i < j && j < hi, src(a, b, lo, hi, i) != src(a, b, lo, hi, j)))
// the elements of s are those it had before, each as often as before
pred rearranged(s) := moved(old(arr(s)), arr(s), off(s), off(s) + len(s))
pred inorder(less, s) := forall(int(a), int(b), imp(0 <= a && a < b && b < len(s), !apply(bool, less, s[b], s[a])))
pred tie(less, x, y) := !apply(bool, less, x, y) && !apply(bool, less, y, x)
pred stable(less, s) := forall(int(a), int(b), imp(0 <= a && a < b && b < len(s) && tie(less, s[a], s[b]),
  src(old(arr(s)), arr(s), off(s), off(s) + len(s), off(s) + a) < src(old(arr(s)), arr(s), off(s), off(s) + len(s), off(s) + b)))
pred weak(less) := forall(bind(E, x), !apply(bool, less, x, x)) &&
  forall(bind(E, x), bind(E, y), bind(E, z), imp(apply(bool, less, x, y) && apply(bool, less, y, z), apply(bool, less, x, z))) &&
  forall(bind(E, x), bind(E, y), bind(E, z), imp(apply(bool, less, x, z), apply(bool, less, x, y) || apply(bool, less, y, z)))

fun src(_, _, int, int, int) int

// assumed: the sorting algorithms of the dependency (the order is a strict weak one)
extern golang.org/x/exp/slices.SortFunc(s, less)
  pure less
  requires weak(less)
  modifies elems(s)
  ensures rearranged(s) && inorder(less, s)

extern golang.org/x/exp/slices.SortStableFunc(s, less)
  pure less
  requires weak(less)
  modifies elems(s)
  ensures rearranged(s) && inorder(less, s) && stable(less, s)

package algox/sortx
// src(a, b, lo, hi, i): where in a the element that b holds at i came from, for b a rearrangement of lo..hi-1 of a
pred moved(a, b, lo, hi) := forall(int(i), imp(lo <= i && i < hi, lo <= src(a, b, lo, hi, i) && src(a, b, lo, hi, i) < hi && b[i] == a[src(a, b, lo, hi, i)])) &&
  forall(int(i), int(j), imp(lo <= i && i < j && j < hi, src(a, b, lo, hi, i) != src(a, b, lo, hi, j)))
// the elements of s are those it had before, each as often as before
pred rearranged(s) := moved(old(arr(s)), arr(s), off(s), off(s) + len(s))
pred inorder(less, s) := forall(int(a), int(b), imp(0 <= a && a < b && b < len(s), !apply(bool, less, s[b], s[a])))
pred tie(less, x, y) := !apply(bool, less, x, y) && !apply(bool, less, y, x)
pred stable(less, s) := forall(int(a), int(b), imp(0 <= a && a < b && b < len(s) && tie(less, s[a], s[b]),
  src(old(arr(s)), arr(s), off(s), off(s) + len(s), off(s) + a) < src(old(arr(s)), arr(s), off(s), off(s) + len(s), off(s) + b)))
pred weak(less) := forall(bind(T, x), !apply(bool, less, x, x)) &&
  forall(bind(T, x), bind(T, y), bind(T, z), imp(apply(bool, less, x, y) && apply(bool, less, y, z), apply(bool, less, x, z))) &&
  forall(bind(T, x), bind(T, y), bind(T, z), imp(apply(bool, less, x, z), apply(bool, less, x, y) || apply(bool, less, y, z)))

func SortCustom(s, less)
  prop P21
  pure less
  requires less != nil && weak(less)
  modifies elems(s)
  ensures[same] rearranged(s)
  ensures[order] inorder(less, s)

func SortStableCustom(s, less)
  prop P21
  pure less
  requires less != nil && weak(less)
  modifies elems(s)
  ensures[same] rearranged(s)
  ensures[order] inorder(less, s)
  ensures[stable] stable(less, s)

func IsSortedCustom(s, less) (r)
  prop P21
  pure less
  requires less != nil
  modifies nothing
  loop[_i int] forall(int(k), imp(_i < k && k < len(s), !apply(bool, less, s[k], s[k-1])))
  ensures[adjacent] iff(r, forall(int(k), imp(0 < k && k < len(s), !apply(bool, less, s[k], s[k-1]))))

pred up(s) := forall(int(a), int(b), imp(0 <= a && a < b && b < len(s), s[a] <= s[b]))
pred falling(s) := forall(int(a), int(b), imp(0 <= a && a < b && b < len(s), s[a] >= s[b]))

func Sort(s, reverse)
  prop P21
  modifies elems(s)
  ensures[same] rearranged(s)
  ensures[order] ite(reverse, falling(s), up(s))

func SortReverse(s)
  prop P21
  modifies elems(s)
  ensures[same] rearranged(s)
  ensures[order] falling(s)

func SortStable(s)
  prop P21
  modifies elems(s)
  ensures[same] rearranged(s)
  ensures[order] up(s)

func SortStableReverse(s)
  prop P21
  modifies elems(s)
  ensures[same] rearranged(s)
  ensures[order] falling(s)

func IsSorted(s) (r)
  prop P21
  modifies nothing
  ensures[order] iff(r, forall(int(k), imp(0 < k && k < len(s), s[k-1] <= s[k])))

func IsSortedReverse(s) (r)
  prop P21
  modifies nothing
  ensures[order] iff(r, forall(int(k), imp(0 < k && k < len(s), s[k-1] >= s[k])))
