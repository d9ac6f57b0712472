package dsx/setx/bitsetx

// named(i, n, j): j is one of i[0], ..., i[n-1]
fun among(gmap[int, int], int, int, int) bool
axiom among-none: forall(bind(gmap(int, int), a), int(lo), int(j), !among(a, lo, lo, j))
axiom among-next: forall(bind(gmap(int, int), a), int(lo), int(c), int(d), int(j), imp(lo <= c && d == c + 1, iff(among(a, lo, d, j), among(a, lo, c, j) || a[c] == j)), trig(among(a, lo, d, j), among(a, lo, c, j)))
// odd(i, n, j): j comes an odd number of times among them
fun oddly(gmap[int, int], int, int, int) bool
axiom odd-none: forall(bind(gmap(int, int), a), int(lo), int(j), !oddly(a, lo, lo, j))
axiom odd-next: forall(bind(gmap(int, int), a), int(lo), int(c), int(d), int(j), imp(lo <= c && d == c + 1, iff(oddly(a, lo, d, j), !iff(oddly(a, lo, c, j), a[c] == j))), trig(oddly(a, lo, d, j), oddly(a, lo, c, j)))
// some(m, 0, n): m is true somewhere in 0..n-1
fun some(gmap[int, bool], int, int) bool
axiom some-none: forall(bind(gmap(int, bool), m), int(lo), !some(m, lo, lo))
axiom some-next: forall(bind(gmap(int, bool), m), int(lo), int(c), int(d), imp(lo <= c && d == c + 1, iff(some(m, lo, d), some(m, lo, c) || m[c])), trig(some(m, lo, d), some(m, lo, c)))
lemma some-later(m gmap(int, bool), lo int, c int, d int)
  prop P16
  ints bv
  requires lo <= c && c <= d && some(m, lo, c)
  induct int(k), c, d, some(m, lo, k)
  ensures some(m, lo, d)
  trigger some(m, lo, d), some(m, lo, c)

pred tests(b, i) := lambda(int(k), bit(b.data, i[k]))
pred named(i, n, j) := among(arr(i), off(i), off(i) + n, j)
pred odd(i, n, j) := oddly(arr(i), off(i), off(i) + n, j)
pred mask(j) := conv(T, 1) << j
// element j is in the set; positions beyond the width never are
pred bit(d, j) := d & mask(j) != conv(T, 0)

func (*BitSet).Set(b, i)
  prop P16
  ints bv
  inst T=uint8
  inst T=uint16
  inst T=uint32
  inst T=uint64
  inst T=uint
  inst T=uintptr
  given j int
  requires b != nil
  requires[valid] forall(int(k), imp(0 <= k && k < len(i), i[k] >= 0))
  requires j >= 0
  modifies b.data
  loop[_n int] iff(bit(b.data, j), old(bit(b.data, j)) || mask(j) != conv(T, 0) && named(i, _n, j))
  loop[_n int] iff(bit(b.data, j), old(bit(b.data, j)) || mask(j) != conv(T, 0) && named(i, _n+1, j))
  ensures[bits] iff(bit(b.data, j), old(bit(b.data, j)) || mask(j) != conv(T, 0) && named(i, len(i), j))

func (*BitSet).Clear(b, i)
  prop P16
  ints bv
  inst T=uint8
  inst T=uint16
  inst T=uint32
  inst T=uint64
  inst T=uint
  inst T=uintptr
  given j int
  requires b != nil
  requires[valid] forall(int(k), imp(0 <= k && k < len(i), i[k] >= 0))
  requires j >= 0
  modifies b.data
  loop[_n int] iff(bit(b.data, j), old(bit(b.data, j)) && !named(i, _n, j))
  loop[_n int] iff(bit(b.data, j), old(bit(b.data, j)) && !named(i, _n+1, j))
  ensures[bits] iff(bit(b.data, j), old(bit(b.data, j)) && !named(i, len(i), j))

func (*BitSet).Toggle(b, i)
  prop P16
  ints bv
  inst T=uint8
  inst T=uint16
  inst T=uint32
  inst T=uint64
  inst T=uint
  inst T=uintptr
  given j int
  requires b != nil
  requires[valid] forall(int(k), imp(0 <= k && k < len(i), i[k] >= 0))
  requires j >= 0
  modifies b.data
  loop[_n int] iff(bit(b.data, j), mask(j) != conv(T, 0) && !iff(old(bit(b.data, j)), odd(i, _n, j)))
  loop[_n int] iff(bit(b.data, j), mask(j) != conv(T, 0) && !iff(old(bit(b.data, j)), odd(i, _n+1, j)))
  ensures[bits] iff(bit(b.data, j), mask(j) != conv(T, 0) && !iff(old(bit(b.data, j)), odd(i, len(i), j)))

func (*BitSet).Test(b, i) (r)
  prop P16
  ints bv
  inst T=uint8
  inst T=uint16
  inst T=uint32
  inst T=uint64
  inst T=uint
  inst T=uintptr
  requires b != nil
  requires[valid] forall(int(k), imp(0 <= k && k < len(i), i[k] >= 0))
  modifies nothing
  loop[_n int, _t bool] iff(_t, some(tests(b, i), 0, _n))
  loop[_n int, _t bool] iff(_t, some(tests(b, i), 0, _n+1))
  ensures[any] iff(r, some(tests(b, i), 0, len(i)))

func (*BitSet).IsEmpty(b) (r)
  prop P16
  ints bv
  inst T=uint8
  inst T=uint16
  inst T=uint32
  inst T=uint64
  inst T=uint
  inst T=uintptr
  given j int
  requires b != nil
  requires j >= 0
  modifies nothing
  ensures[none] imp(r, !bit(b.data, j))
  ensures[exact] iff(r, b.data == conv(T, 0))

func (*BitSet).IsFull(b) (r)
  prop P16
  ints bv
  inst T=uint8
  inst T=uint16
  inst T=uint32
  inst T=uint64
  inst T=uint
  inst T=uintptr
  given j int
  requires b != nil
  requires j >= 0
  modifies nothing
  ensures[all] imp(r, mask(j) == conv(T, 0) || bit(b.data, j))
  ensures[exact] iff(r, b.data + conv(T, 1) == conv(T, 0))

func (*BitSet).ClearAll(b)
  prop P16
  ints bv
  inst T=uint8
  inst T=uint16
  inst T=uint32
  inst T=uint64
  inst T=uint
  inst T=uintptr
  given j int
  requires b != nil
  requires j >= 0
  modifies b.data
  ensures[bits] !bit(b.data, j)

func (*BitSet).SetAll(b)
  prop P16
  ints bv
  inst T=uint8
  inst T=uint16
  inst T=uint32
  inst T=uint64
  inst T=uint
  inst T=uintptr
  given j int
  requires b != nil
  requires j >= 0
  modifies b.data
  ensures[bits] mask(j) == conv(T, 0) || bit(b.data, j)

func (*BitSet).ToggleAll(b)
  prop P16
  ints bv
  inst T=uint8
  inst T=uint16
  inst T=uint32
  inst T=uint64
  inst T=uint
  inst T=uintptr
  given j int
  requires b != nil
  requires j >= 0
  modifies b.data
  ensures[bits] iff(bit(b.data, j), mask(j) != conv(T, 0) && !old(bit(b.data, j)))

