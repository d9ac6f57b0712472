package dsx/linkedx/stackx

// The stack's content, bottom first: element i is nodes[i].data.
ghost Stack.nodes gmap(int, *node)
ghost Stack.idx gmap(*node, int)

pred poolok(s) := s.pool != nil && s.pool.New != nil &&
  forall(*node(p), imp(inpool(s.pool, p), p != nil && allocated(p)))

pred wf(s) := s != nil && poolok(s) && 0 <= s.length &&
  iff(s.head == nil, s.length == 0) &&
  imp(s.length > 0, s.head == s.nodes[s.length-1]) &&
  forall(int(i), imp(0 <= i && i < s.length,
     s.nodes[i] != nil && allocated(s.nodes[i]) && s.idx[s.nodes[i]] == i && !inpool(s.pool, s.nodes[i])
     && s.nodes[i].next == ite(i == 0, nil, s.nodes[i-1])))

func New() (s)
  prop P01
  ensures[empty] s != nil && fresh(s) && s.length == 0
  ensures[wf] wf(s)
  allocs Stack, sync.Pool

func (*Stack).Push(s, v) (ok)
  prop P01
  requires wf(s)
  requires[practical] s.length < 1<<62
  modifies object(s), pool(s.pool), all(node.data, *node(p), inpool(s.pool, p)), all(node.next, *node(p), inpool(s.pool, p))
  allocs node
  set s.nodes := update(old(s.nodes), old(s.length), s.head)
  set s.idx := update(old(s.idx), s.head, old(s.length))
  ensures[wf] wf(s)
  ensures[accepted] ok
  ensures[grows] s.length == old(s.length) + 1
  ensures[top] s.nodes[old(s.length)].data == v
  ensures[below] forall(int(i), imp(0 <= i && i < old(s.length), s.nodes[i].data == old(s.nodes[i].data)))

func (*Stack).Pop(s) (rs, ok)
  prop P01
  requires wf(s)
  modifies object(s), pool(s.pool), all(node.data, *node(p), s.head == p), all(node.next, *node(p), s.head == p)
  ensures[wf] wf(s)
  ensures[empty] iff(ok, old(s.length) > 0)
  ensures[unchanged] imp(!ok, s.length == old(s.length) && rs == zero(T))
  ensures[top] imp(ok, rs == old(s.nodes[s.length-1].data) && s.length == old(s.length) - 1)
  ensures[below] forall(int(i), imp(0 <= i && i < s.length, s.nodes[i].data == old(s.nodes[i].data)))

func (*Stack).Peek(s) (rs, ok)
  prop P01
  requires wf(s)
  modifies nothing
  ensures[empty] iff(ok, s.length > 0)
  ensures[top] imp(ok, rs == s.nodes[s.length-1].data)
  ensures imp(!ok, rs == zero(T))

func (*Stack).Len(s) (n)
  prop P01
  requires wf(s)
  modifies nothing
  ensures n == s.length
