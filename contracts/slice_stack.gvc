package dsx/slicex/stackx

func New() (s)
  prop P02
  ensures[fresh] s != nil && fresh(s) && (cap(s.data) == 0 || fresh(ref(s.data)))
  ensures[empty] len(s.data) == 0
  allocs Stack, []T

func (*Stack).Push(s, v) (ok)
  prop P02
  requires s != nil
  modifies s.data, elems(s.data, len(s.data), cap(s.data))
  allocs []T
  ensures[accepted] ok
  ensures[grows] len(s.data) == old(len(s.data)) + 1
  ensures[top] s.data[old(len(s.data))] == v
  ensures[below] forall(int(i), imp(0 <= i && i < old(len(s.data)), s.data[i] == old(s.data[i])))

func (*Stack).Pop(s) (rs, ok)
  prop P02
  requires s != nil
  modifies s.data
  ensures[empty] iff(ok, old(len(s.data)) > 0)
  ensures[unchanged] imp(!ok, len(s.data) == 0 && rs == zero(T))
  ensures[top] imp(ok, rs == old(s.data[len(s.data)-1]))
  ensures[shrinks] imp(ok, len(s.data) == old(len(s.data)) - 1)
  ensures[below] forall(int(i), imp(0 <= i && i < len(s.data), s.data[i] == old(s.data[i])))

func (*Stack).Peek(s) (rs, ok)
  prop P02
  requires s != nil
  modifies nothing
  ensures[empty] iff(ok, len(s.data) > 0)
  ensures[top] imp(ok, rs == s.data[len(s.data)-1])
  ensures imp(!ok, rs == zero(T))

func (*Stack).IsEmpty(s) (r)
  prop P02
  requires s != nil
  modifies nothing
  ensures iff(r, len(s.data) == 0)

func (*Stack).Len(s) (n)
  prop P02
  requires s != nil
  modifies nothing
  ensures n == len(s.data)
