package typex/convx

// the run-time type of a value, and what a pointer type points to
fun rtypeof(any) Iface
fun relem(Iface) Iface
extern reflect.TypeOf(i) (t)
  ensures t == rtypeof(i) && imp(i != nil, t != nil)
invoke reflect.Type.Elem(t) (r)
  ensures r == relem(t) && r != nil

// a boxed function that is not the nil function of its type
fun callable(any) bool
axiom callablefunc[T, R]: forall(any(v), imp(typeis(v, func(T) R), iff(callable(v), unbox(v, func(T) R) != nil)), trig(callable(v)))

guard convertersLock: contents(converters), all(map[reflect.Type]any) inv ok() := converters != nil && forall(reflect.Type(a), reflect.Type(b), imp(a != b && some(a) && some(b), converters[a] != converters[b])) && forall(reflect.Type(a), reflect.Type(b), imp(has(a, b), converters[a][b] != nil && callable(converters[a][b])))

pred src() := relem(rtypeof(box(zero(*T))))
pred dst() := relem(rtypeof(box(zero(*R))))
// there are converters from a
pred some(a) := dom(converters, a) && converters[a] != nil
// there is a converter from a to b
pred has(a, b) := some(a) && dom(converters[a], b)

func Register(converter)
  prop P29
  requires converter != nil
  modifies contents(converters), contents(acq(converters[src()]))
  allocs map[reflect.Type]any
  ensures[set] rel(has(src(), dst()) && converters[src()][dst()] == box(converter))
  ensures[rest] forall(reflect.Type(a), reflect.Type(b), imp(a != src() || b != dst(), iff(rel(has(a, b)), acq(has(a, b))) && imp(acq(has(a, b)), rel(converters[a][b]) == acq(converters[a][b]))))

func Unregister()
  prop P29
  modifies contents(converters), contents(acq(converters[src()]))
  ensures[gone] !rel(has(src(), dst()))
  ensures[rest] forall(reflect.Type(a), reflect.Type(b), imp(a != src() || b != dst(), iff(rel(has(a, b)), acq(has(a, b))) && imp(acq(has(a, b)), rel(converters[a][b]) == acq(converters[a][b]))))

func Exists() (ok)
  prop P29
  modifies nothing
  ensures[present] iff(ok, acq(has(src(), dst())))

func Into(value) (rs, ok)
  prop P29
  modifies callsAny()
  ensures[free] rel(tick()) == old(tick())
  ensures[none] imp(!acq(has(src(), dst())), !ok && rs == zero(R) && tick() == old(tick()))
  ensures[other] imp(acq(has(src(), dst())) && !typeis(acq(converters[src()][dst()]), func(T) R), !ok && rs == zero(R) && tick() == old(tick()))
  ensures[applied] imp(acq(has(src(), dst())) && typeis(acq(converters[src()][dst()]), func(T) R), ok && tick() == old(tick()) + 1 && who(old(tick())) == unbox(acq(converters[src()][dst()]), func(T) R) && callarg(T, who(old(tick())), callno(old(tick()))) == value && rs == callret(R, who(old(tick())), callno(old(tick()))))

func IntoOr(value, or) (r)
  inline Into
  prop P29
  modifies callsAny()
  ensures[free] rel(tick()) == old(tick())
  ensures[fallback] imp(!acq(has(src(), dst())) || !typeis(acq(converters[src()][dst()]), func(T) R), r == or)
  ensures[applied] imp(acq(has(src(), dst())) && typeis(acq(converters[src()][dst()]), func(T) R), tick() == old(tick()) + 1 && who(old(tick())) == unbox(acq(converters[src()][dst()]), func(T) R) && callarg(T, who(old(tick())), callno(old(tick()))) == value && r == callret(R, who(old(tick())), callno(old(tick()))))
