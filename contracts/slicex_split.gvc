package dsx/slicex

// piece k of r is a window of s that starts where piece k-1 ends
pred contiguous(r, s) := forall(int(k), imp(0 <= k && k < len(r), ref(r[k]) == ref(s) && off(r[k]) >= off(s) && off(r[k]) + len(r[k]) <= off(s) + len(s)))
   && imp(len(r) > 0, off(r[0]) == off(s)) && forall(int(k), imp(0 <= k && k + 1 < len(r), off(r[k+1]) == off(r[k]) + len(r[k])))

func Slice.Split(s, splits) (r)
  prop P10
  requires[sizes] forall(int(k), imp(0 <= k && k < len(splits), splits[k] >= 0))
  requires[practical] len(splits) < 1<<40
  modifies nothing
  allocs []Slice[T]
  loop[_i int, _r []Slice[T]] 0 <= _i && _i <= len(splits) && len(_r) == _i && cap(_r) == len(splits) + 1
  loop[_end int] 0 <= _end && _end <= len(s)
  loop[_r []Slice[T], _end int] contiguous(_r, s) && ite(len(_r) == 0, _end == 0, _end == off(_r[len(_r)-1]) + len(_r[len(_r)-1]) - off(s))
  loop[_r []Slice[T]] forall(int(k), imp(0 <= k && k < len(_r), len(_r[k]) == splits[k] || len(_r[k]) < splits[k] && off(_r[k]) + len(_r[k]) == off(s) + len(s)))
  decreases[_i int] len(splits) - _i
  ensures[count] len(r) == len(splits) || len(r) == len(splits) + 1 && len(r[len(splits)]) > 0
  ensures[contiguous] contiguous(r, s)
  ensures[complete] ite(len(r) == 0, len(s) == 0, off(r[len(r)-1]) + len(r[len(r)-1]) == off(s) + len(s))
  ensures[sizes] forall(int(k), imp(0 <= k && k < len(splits), len(r[k]) == splits[k] || len(r[k]) < splits[k] && off(r[k]) + len(r[k]) == off(s) + len(s)))

pred unit(size) := ite(size <= 0, 1, size)

func Slice.Batch(s, size) (r)
  prop P10
  requires[practical] len(s) < 1<<40
  modifies nothing
  allocs []Slice[T], []int
  loop[_i int] 0 <= _i
  loop[_i int, _sp []int] forall(int(k), imp(0 <= k && k < _i && k < len(_sp), _sp[k] == unit(size)))
  induct[starts] int(k), 0, len(r)-1, imp(len(r) > 0, off(r[k]) == off(s) + k * unit(size))
  ensures[contiguous] contiguous(r, s)
  ensures[complete] ite(len(r) == 0, len(s) == 0, off(r[len(r)-1]) + len(r[len(r)-1]) == off(s) + len(s))
  ensures[full] forall(int(k), imp(0 <= k && k < len(r) - 1, len(r[k]) == unit(size)))
  ensures[last] imp(len(r) > 0, 0 < len(r[len(r)-1]) && len(r[len(r)-1]) <= unit(size))
