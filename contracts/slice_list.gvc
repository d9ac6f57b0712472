package dsx/slicex/listx

func (*List).Append(l, v)
  prop P07
  requires l != nil
  modifies *l, elems(*l, len(*l), cap(*l))
  allocs []T
  ensures[grows] len(*l) == old(len(*l)) + 1
  ensures[last] (*l)[old(len(*l))] == v
  ensures[rest] forall(int(i), imp(0 <= i && i < old(len(*l)), (*l)[i] == old((*l)[i])))

func (*List).Insert(l, index, v)
  prop P07
  requires l != nil
  requires[range] 0 <= index && index <= len(*l)
  modifies *l, elems(*l, index, cap(*l))
  allocs []T
  ensures[grows] len(*l) == old(len(*l)) + 1 && (*l)[index] == v
  ensures[before] forall(int(i), imp(0 <= i && i < index, (*l)[i] == old((*l)[i])))
  ensures[after] forall(int(i), imp(index < i && i < len(*l), (*l)[i] == old((*l)[i-1])))

func (*List).Remove(l, index) (rs, ok)
  prop P07
  requires l != nil
  modifies *l, elems(*l)
  allocs []T
  ensures[range] iff(ok, 0 <= index && index < old(len(*l)))
  ensures[refused] imp(!ok, rs == zero(T) && len(*l) == old(len(*l)) && forall(int(i), imp(0 <= i && i < len(*l), (*l)[i] == old((*l)[i]))))
  ensures[value] imp(ok, rs == old((*l)[index]) && len(*l) == old(len(*l)) - 1)
  ensures[before] imp(ok, forall(int(i), imp(0 <= i && i < index, (*l)[i] == old((*l)[i]))))
  ensures[after] imp(ok, forall(int(i), imp(index <= i && i < len(*l), (*l)[i] == old((*l)[i+1]))))

func (*List).At(l, index) (rs, ok)
  prop P07
  requires l != nil
  modifies nothing
  ensures[range] iff(ok, 0 <= index && index < len(*l))
  ensures[value] imp(ok, rs == (*l)[index])
  ensures imp(!ok, rs == zero(T))

func (*List).Iterate(l, f)
  prop P07
  requires l != nil
  requires f != nil
  modifies calls(f)
  loop[_i int] 0 <= _i && _i <= len(*l) && ncalls(f) - old(ncalls(f)) == _i
  loop[_i int] -1 <= _i && _i < len(*l) && ncalls(f) - old(ncalls(f)) == _i + 1
  loop forall(int(i), imp(0 <= i && i < ncalls(f) - old(ncalls(f)), callarg(T, f, old(ncalls(f)) + i) == (*l)[i] && callret(bool, f, old(ncalls(f)) + i)))
  decreases[_i int] len(*l) - _i
  ensures[order] 0 <= ncalls(f) - old(ncalls(f)) && ncalls(f) - old(ncalls(f)) <= len(*l) &&
     forall(int(i), imp(0 <= i && i < ncalls(f) - old(ncalls(f)), callarg(T, f, old(ncalls(f)) + i) == (*l)[i]))
  ensures[continues] forall(int(i), imp(0 <= i && i < ncalls(f) - old(ncalls(f)) - 1, callret(bool, f, old(ncalls(f)) + i)))
  ensures[stops] imp(ncalls(f) - old(ncalls(f)) < len(*l), ncalls(f) > old(ncalls(f)) && !callret(bool, f, ncalls(f) - 1))

func (*List).Len(l) (n)
  prop P07
  requires l != nil
  modifies nothing
  ensures n == len(*l)

func (*List).Cap(l) (n)
  prop P07
  requires l != nil
  modifies nothing
  ensures[room] n >= len(*l)
