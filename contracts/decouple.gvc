package iox/decouplex

// pos(k, s) is k mod s: where record number k lies in a ring of s slots
fun pos(int, int) int
axiom pos-def: forall(int(k), int(s), imp(s > 0, pos(k, s) == k % s), trig(pos(k, s)))

lemma pos-range(k int, s int)
  prop P33
  requires s > 0 && 0 <= k
  ensures 0 <= pos(k, s) && pos(k, s) < s
  trigger pos(k, s)

lemma pos-apart(k int, m int, s int)
  prop P33
  requires s > 0 && 0 <= k && k < m && m < k + s
  ensures pos(k, s) != pos(m, s)
  trigger pos(k, s), pos(m, s)

pred nobody() := 18446744073709551614
pred slotted(d, i) := d.locktab[i] == nobody() || d._read <= d.locktab[i] && d.locktab[i] < d._read + d._len && pos(d.locktab[i], d.size) == i
// record number k is waiting
pred waiting(d, k) := d.locktab[pos(k, d.size)] == k
pred apart(d) := forall(int(i), int(j), imp(0 <= i && i < j && j < d.size && cap(d.buffer[i]) > 0 && cap(d.buffer[j]) > 0, ref(d.buffer[i]) != ref(d.buffer[j])))
pred wf(d) := d != nil && d.drop != nil && d.size < 1<<40 && len(d.locktab) == d.size && len(d.buffer) == d.size && d._len <= d.size && d._read + d._len < 1<<62 && d._write == ite(d._read + d._len == 0, 18446744073709551615, d._read + d._len - 1) && forall(int(i), imp(0 <= i && i < d.size, slotted(d, i))) && forall(int(k), imp(d._read <= k && k < d._read + d._len, waiting(d, k)), trig(pos(k, d.size))) && apart(d)
// the i-th waiting record, oldest first
pred rec(d, i) := d.buffer[pos(d._read + i, d.size)]
pred same(a, b) := len(a) == len(b) && forall(int(i), imp(0 <= i && i < len(a), a[i] == b[i]))
pred start() := old(tick())

func NewDecoupler(size, drop) (d)
  prop P33
  requires[practical] size < 1<<40
  modifies nothing
  allocs Decoupler, []uint64, [][]byte
  loop[_n int, _t []uint64] forall(int(i), imp(0 <= i && i < _n, _t[i] == nobody()))
  loop[_n int, _t []uint64] forall(int(i), imp(0 <= i && i <= _n, _t[i] == nobody()))
  ensures[empty] fresh(d) && wf(d) && d._len == 0 && d.size == size
  ensures[drop] imp(drop != nil, d.drop == drop)

func NewDecoupler@drop(size, drop) (d)
  prop P33
  given b []byte
  requires size < 1<<40 && drop == nil
  modifies nothing
  allocs Decoupler, []uint64, [][]byte
  then d.drop(b) (n, err)
  ensures[discard] n == len(b) && err == nil

func (*Decoupler).Write(d, b) (n, err)
  prop P33
  requires wf(d) && forall(int(i), imp(0 <= i && i < d.size && cap(d.buffer[i]) > 0, ref(d.buffer[i]) != ref(b)))
  requires[practical] d._read + d._len < 1<<62 - 1
  requires[hint] d.size == 0 || pos(d._read + d._len, d.size) >= 0
  modifies d._len, d._write, elems(d.locktab), elems(d.buffer), elems(d.buffer[pos(d._read + d._len, d.size)], 0, cap(d.buffer[pos(d._read + d._len, d.size)])), callsAny()
  allocs []byte
  loop imp(0 < d.size, d.locktab[pos(old(d._read + d._len), d.size)] == nobody())
  ensures[wf] wf(d)
  ensures[accepted] imp(len(b) > 0 && old(d._len) < d.size, n == len(b) && err == nil && d._len == old(d._len) + 1 && tick() == start())
  ensures[length] imp(len(b) > 0 && old(d._len) < d.size, len(rec(d, old(d._len))) == len(b))
  ensures[bytes] imp(len(b) > 0 && old(d._len) < d.size, forall(int(i), imp(0 <= i && i < len(b), rec(d, old(d._len))[i] == old(b[i]))))
  ensures[dropped] imp(len(b) == 0 || old(d._len) >= d.size, d._len == old(d._len) && tick() == start() + 1 && who(start()) == d.drop && callarg([]byte, d.drop, callno(start())) == b && n == callret(int, d.drop, callno(start()), 0) && err == callret(error, d.drop, callno(start()), 1))
  ensures[rest] d._read == old(d._read) && forall(int(i), imp(0 <= i && i < old(d._len), rec(d, i) == old(rec(d, i)) && same(rec(d, i), old(rec(d, i)))), trig(pos(d._read + i, d.size)))

func (*Decoupler).Next(d, view) (ok)
  prop P33
  requires wf(d)
  requires[hint] d.size == 0 || pos(d._read, d.size) >= 0
  modifies d._len, d._read, elems(d.locktab), callsAny()
  loop imp(0 < d._len, d.locktab[pos(old(d._read), d.size)] == old(d._read))
  ensures[wf] wf(d)
  ensures[none] iff(ok, old(d._len) > 0)
  ensures[refused] imp(!ok, d._len == 0 && tick() == start())
  ensures[taken] imp(ok, d._len == old(d._len) - 1 && d._read == old(d._read) + 1)
  ensures[viewed] imp(ok, ite(view == nil, tick() == start(), tick() == start() + 1 && who(start()) == view && callarg([]byte, view, callno(start())) == old(rec(d, 0))))
  ensures[rest] forall(int(i), imp(0 <= i && i < d._len, rec(d, i) == old(d.buffer[pos(d._read + i + 1, d.size)])), trig(pos(d._read + i, d.size)))
