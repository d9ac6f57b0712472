package dsx/slicex/queuex

// number of queued elements and the i-th of them, front first
pred count(r) := ite(r.tail >= r.head, r.tail - r.head, r.tail - r.head + r.cap)
pred slot(r, i) := ite(r.head + i < r.cap, r.head + i, r.head + i - r.cap)
pred wf(r) := r != nil && r.cap >= 2 && len(r.data) == r.cap && 0 <= r.head && r.head < r.cap && 0 <= r.tail && r.tail < r.cap

func New(n) (r)
  prop P04
  requires[practical] n < 1<<40
  ensures[none] imp(n <= 0, r == nil)
  ensures[empty] imp(n > 0, fresh(r) && fresh(ref(r.data)) && wf(r) && r.cap == n + 1 && count(r) == 0)
  allocs Ring, []T

func (*Ring).Enqueue(r, v) (ok)
  prop P04
  requires wf(r)
  modifies r.head, r.tail, r.data, elems(r.data)
  ensures[wf] wf(r) && r.cap == old(r.cap)
  ensures[bounded] iff(ok, old(count(r)) < r.cap - 1)
  ensures[refused] imp(!ok, count(r) == old(count(r)))
  ensures[grows] imp(ok, count(r) == old(count(r)) + 1 && r.data[slot(r, old(count(r)))] == v)
  ensures[rest] forall(int(i), imp(0 <= i && i < old(count(r)), r.data[slot(r, i)] == old(r.data[slot(r, i)])))

func (*Ring).Dequeue(r) (v, ok)
  prop P04
  requires wf(r)
  modifies r.head, r.tail, r.data, elems(r.data)
  ensures[wf] wf(r) && r.cap == old(r.cap)
  ensures[empty] iff(ok, old(count(r)) > 0)
  ensures[refused] imp(!ok, v == zero(T) && count(r) == 0)
  ensures[front] imp(ok, v == old(r.data[slot(r, 0)]) && count(r) == old(count(r)) - 1)
  ensures[rest] imp(ok, forall(int(i), imp(0 <= i && i < count(r), r.data[slot(r, i)] == old(r.data[slot(r, i+1)]))))

func (*Ring).Head(r) (v)
  prop P04
  requires wf(r)
  modifies nothing
  ensures[front] imp(count(r) > 0, v == r.data[slot(r, 0)])

func (*Ring).Peek(r) (v, ok)
  prop P04
  requires wf(r)
  modifies nothing
  ensures[empty] iff(ok, count(r) > 0)
  ensures[front] imp(ok, v == r.data[slot(r, 0)])
  ensures imp(!ok, v == zero(T))

func (*Ring).Cap(r) (n)
  prop P04
  requires wf(r)
  modifies nothing
  ensures n == r.cap - 1

func (*Ring).IsEmpty(r) (b)
  prop P04
  requires wf(r)
  modifies nothing
  ensures iff(b, count(r) == 0)

func (*Ring).IsFull(r) (b)
  prop P04
  requires wf(r)
  modifies nothing
  ensures iff(b, count(r) == r.cap - 1)
