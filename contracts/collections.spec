package github.com/fizzbee-io/fizzbee/lib

// ---------- starlark equality, assumed ----------
// veq is equality of the values as they are during one operation; an error means the values cannot be compared.
// It is assumed symmetric and transitive (starlark equality of comparable values), not reflexive (NaN).
ghost veq(starlark.Value; starlark.Value) bool
axiom veq_sym: forall a starlark.Value, b starlark.Value {{veq(a,b)}} :: veq(a,b) ==> veq(b,a)
axiom veq_trans: forall a starlark.Value, b starlark.Value, c starlark.Value {{veq(a,b), veq(b,c)}} :: veq(a,b) && veq(b,c) ==> veq(a,c)
extern go.starlark.net/starlark.Equal : x, y
  modifies nothing
  ensures result1 == nil ==> (result0 <==> veq(x, y))
  ensures result1 != nil ==> !result0
extern go.starlark.net/starlark.EqualDepth : x, y, depth
  modifies nothing
  ensures result1 == nil ==> (result0 <==> veq(x, y))
  ensures result1 != nil ==> !result0
// An iterator hands out itseq(it)[itpos(it)], ..., itseq(it)[itn(it)-1]
// mark(x) is true of every value; it only guides instantiation
ghost mark(starlark.Value) bool
ghost itseq(starlark.Iterator) seq[starlark.Value]
ghost itn(starlark.Iterator) int
ghostvar itpos(starlark.Iterator) int
extern (go.starlark.net/starlark.Iterator).Next : self, p
  modifies itpos(self), *p
  ensures result <==> old(itpos(self)) < itn(self)
  ensures result ==> itpos(self) == old(itpos(self)) + 1 && *p == itseq(self)[old(itpos(self))]
  ensures !result ==> itpos(self) == old(itpos(self))
extern (go.starlark.net/starlark.Iterator).Done
  modifies nothing

// ---------- genericmap ----------
// stated over raw array positions, so that shifting the entries needs no index arithmetic
macro ents(g) = contents(g.entries)
macro lo(g) = off(g.entries)
macro hi(g) = off(g.entries) + len(g.entries)
macro mapOK(g) = forall r int {{ents(g)[r]}} :: lo(g) <= r && r < hi(g) ==> len(ents(g)[r]) == 2 && allocated(ents(g)[r])
macro mapUniq(g) = forall r int, q int {{ents(g)[r], ents(g)[q]}} :: lo(g) <= r && r < q && q < hi(g) ==> !veq(ents(g)[r][0], ents(g)[q][0])
macro hasKey(g, k) = exists r int {{ents(g)[r]}} :: lo(g) <= r && r < hi(g) && veq(ents(g)[r][0], k)

func (*GenericMap).Get
  props C02
  requires mapOK(g)
  loop 1
    invariant forall r int {{ents(g)[r]}} :: lo(g) <= r && r < lo(g) + $k ==> !veq(ents(g)[r][0], key)
  ensures [found] err == nil && found ==> exists r int {{ents(g)[r]}} :: lo(g) <= r && r < hi(g) && veq(ents(g)[r][0], key) && v == ents(g)[r][1]
  ensures [absent] err == nil && !found ==> !hasKey(g, key)
  ensures [error] err != nil ==> !found

func (*GenericMap).SetKey
  props C02
  requires mapOK(g)
  requires mapUniq(g)
  modifies g.entries, elems(g.entries)
  loop 1
    invariant forall r int {{ents(g)[r]}} :: lo(g) <= r && r < lo(g) + $k ==> !veq(ents(g)[r][0], key)
  ensures [inv] mapOK(g)
  ensures [unique] mapUniq(g)
  ensures [error] result != nil ==> len(g.entries) == old(len(g.entries)) && forall i int :: 0 <= i && i < len(g.entries) ==> g.entries[i] == old(g.entries[i])
  ensures [set] result == nil ==> (exists k int :: lo(g) <= k && k < hi(g) && ents(g)[k][1] == value &&
     (k < lo(g) + old(len(g.entries)) ==> ents(g)[k][0] == old(ents(g)[k][0]) && veq(ents(g)[k][0], key)) && (k >= lo(g) + old(len(g.entries)) ==> ents(g)[k][0] == key) &&
     (forall r int {{ents(g)[r]}} :: lo(g) <= r && r < hi(g) && r != k ==> ents(g)[r] == old(ents(g)[r])))
  ensures [members] result == nil ==> forall x starlark.Value {{mark(x)}} :: hasKey(g, x) <==> old(hasKey(g, x)) || veq(key, x)
  ensures [own] arr(g.entries) == old(arr(g.entries)) || fresh(arr(g.entries))
  ensures [same-lo] lo(g) == old(lo(g))
  ensures [grow] result == nil ==> len(g.entries) == old(len(g.entries)) + ite(old(hasKey(g, key)), 0, 1)

// ---------- bag ----------
macro els(b) = contents(b.elems)
macro blo(b) = off(b.elems)
macro bhi(b) = off(b.elems) + len(b.elems)
extern slices.BinarySearchFunc : x, target, cmp
  modifies nothing
  ensures 0 <= result0 && result0 <= len(x)
extern slices.Insert : s, i, v
  requires 0 <= i && i <= len(s)
  modifies elems(s)
  ensures len(result) == old(len(s)) + len(v) && len(result) <= cap(result)
  ensures arr(result) == arr(s) || fresh(arr(result))
  ensures off(result) == off(s)
  ensures forall r int {{contents(result)[r]}} :: off(s) <= r && r < off(s) + i ==> contents(result)[r] == old(contents(s)[r])
  ensures forall r int {{contents(result)[r]}} :: off(s) + i <= r && r < off(s) + i + len(v) ==> contents(result)[r] == old(contents(v)[r - off(s) - i + off(v)])
  ensures forall r int {{contents(result)[r]}} :: off(s) + i + len(v) <= r && r < off(s) + old(len(s)) + len(v) ==> contents(result)[r] == old(contents(s)[r - len(v)])
func (*Bag).Insert
  props C02
  modifies b.elems, elems(b.elems)
  ensures [ok] result == nil
  ensures [one] len(b.elems) == old(len(b.elems)) + 1 && exists p int :: blo(b) <= p && p < bhi(b) && els(b)[p] == val && blo(b) == old(blo(b)) &&
     (forall r int {{els(b)[r]}} :: blo(b) <= r && r < p ==> els(b)[r] == old(els(b)[r])) && (forall r int {{els(b)[r]}} :: p < r && r < bhi(b) ==> els(b)[r] == old(els(b)[r-1]))
func (*Bag).Find
  props C02
  loop 1
    invariant forall r int {{els(b)[r]}} :: blo(b) <= r && r < blo(b) + $k ==> !veq(els(b)[r], k)
  ensures [found] result1 == nil && result0 >= 0 ==> result0 < len(b.elems) && veq(b.elems[result0], k)
  ensures [absent] result1 == nil && result0 < 0 ==> forall r int {{els(b)[r]}} :: blo(b) <= r && r < bhi(b) ==> !veq(els(b)[r], k)
  ensures [error] result1 != nil ==> result0 < 0
func (*Bag).Has
  props C02
  ensures [member] err == nil ==> (found <==> exists r int {{els(b)[r]}} :: blo(b) <= r && r < bhi(b) && veq(els(b)[r], x))
func (*Bag).Delete
  props C02
  modifies b.elems, elems(b.elems)
  ensures [found] result1 == nil ==> (result0 <==> old(exists r int {{els(b)[r]}} :: blo(b) <= r && r < bhi(b) && veq(els(b)[r], k)))
  ensures [kept] !result0 ==> len(b.elems) == old(len(b.elems)) && forall r int {{els(b)[r]}} :: blo(b) <= r && r < bhi(b) ==> els(b)[r] == old(els(b)[r])
  ensures [one] result0 ==> len(b.elems) == old(len(b.elems)) - 1 && exists p int :: blo(b) <= p && p <= bhi(b) && veq(old(els(b)[p]), k) && blo(b) == old(blo(b)) &&
     (forall r int {{els(b)[r]}} :: blo(b) <= r && r < p ==> els(b)[r] == old(els(b)[r])) && (forall r int {{els(b)[r]}} :: p <= r && r < bhi(b) ==> els(b)[r] == old(els(b)[r+1]))
func (*Bag).Len
  props C02
  ensures result == len(b.elems)
func (*Bag).Clear
  props C02
  modifies b.elems
  ensures len(b.elems) == 0

extern fmt.Errorf
  modifies nothing
  ensures result != nil
extern errors.New
  modifies nothing
  ensures result != nil

func (*GenericMap).Delete
  props C02
  chain
  requires mapOK(g)
  requires mapUniq(g)
  modifies g.entries, elems(g.entries)
  loop 1
    invariant forall r int {{ents(g)[r]}} :: lo(g) <= r && r < lo(g) + $k ==> !veq(ents(g)[r][0], k)
  ensures [shift] err == nil && found ==> lo(g) == old(lo(g)) && (exists d int :: lo(g) <= d && d <= hi(g) && veq(old(ents(g)[d][0]), k) && v == old(ents(g)[d][1]) &&
     (forall r int {{ents(g)[r]}} {{old(ents(g)[r])}} :: lo(g) <= r && r < d ==> ents(g)[r] == old(ents(g)[r])) &&
     (forall r int {{ents(g)[r]}} :: d <= r && r < hi(g) ==> ents(g)[r] == old(ents(g)[r+1])) &&
     (forall r int {{old(ents(g)[r])}} :: d < r && r <= hi(g) ==> ents(g)[r-1] == old(ents(g)[r])))
  ensures [inv] mapOK(g)
  ensures [unique] mapUniq(g)
  ensures [error] err != nil || !found ==> len(g.entries) == old(len(g.entries)) && forall i int :: 0 <= i && i < len(g.entries) ==> g.entries[i] == old(g.entries[i])
  ensures [notfound] err == nil ==> (found <==> old(hasKey(g, k)))
  ensures [members] err == nil ==> forall x starlark.Value {{mark(x)}} :: hasKey(g, x) <==> old(hasKey(g, x)) && !veq(k, x)
  ensures [failed] err != nil ==> !found
  ensures [own] arr(g.entries) == old(arr(g.entries))
  ensures [shrink] err == nil && found ==> len(g.entries) == old(len(g.entries)) - 1 && !hasKey(g, k)

func (*GenericMap).Len
  props C02
  ensures result == len(g.entries)
func (*GenericMap).Clear
  props C02
  modifies g.entries
  ensures len(g.entries) == 0
func (*GenericMap).Keys
  props C02
  requires mapOK(g)
  loop 1
    invariant len(keys) == len(g.entries)
    invariant forall i int :: 0 <= i && i < $k ==> keys[i] == g.entries[i][0]
  ensures [copy] fresh(arr(result)) || len(result) == 0
  ensures [keys] len(result) == len(g.entries) && forall i int :: 0 <= i && i < len(result) ==> result[i] == g.entries[i][0]
func (*GenericMap).Items
  props C02
  ensures [copy] fresh(arr(result)) || len(result) == 0
  ensures [items] len(result) == len(g.entries) && forall i int :: 0 <= i && i < len(result) ==> result[i] == g.entries[i]

// ---------- genericset ----------
macro setOK(g) = g.dict != nil && mapOK(g.dict) && mapUniq(g.dict)
macro member(g, x) = hasKey(g.dict, x)
func (*GenericSet).Has
  props C02
  requires setOK(g)
  ensures [member] err == nil ==> (found <==> member(g, k))
  ensures [error] err != nil ==> !found
func (*GenericSet).Insert
  props C02
  requires setOK(g)
  modifies g.dict.entries, elems(g.dict.entries)
  ensures [inv] setOK(g)
  ensures [members] result == nil ==> forall x starlark.Value {{mark(x)}} :: member(g, x) <==> old(member(g, x)) || veq(k, x)
  ensures [grow] result == nil ==> len(g.dict.entries) == old(len(g.dict.entries)) + ite(old(member(g, k)), 0, 1)
  ensures [own] arr(g.dict.entries) == old(arr(g.dict.entries)) || fresh(arr(g.dict.entries))
  ensures [append] result == nil && !old(member(g, k)) ==> ents(g.dict)[hi(g.dict)-1][0] == k
  ensures [keys] len(g.dict.entries) >= old(len(g.dict.entries)) && lo(g.dict) == old(lo(g.dict)) && forall r int {{ents(g.dict)[r]}} :: lo(g.dict) <= r && r < lo(g.dict) + old(len(g.dict.entries)) ==> ents(g.dict)[r][0] == old(ents(g.dict)[r][0])
func (*GenericSet).Delete
  props C02
  requires setOK(g)
  modifies g.dict.entries, elems(g.dict.entries)
  ensures [inv] setOK(g)
  ensures [found] err == nil ==> (found <==> old(member(g, k)))
  ensures [members] err == nil ==> forall x starlark.Value {{mark(x)}} :: member(g, x) <==> old(member(g, x)) && !veq(k, x)
  ensures [own] arr(g.dict.entries) == old(arr(g.dict.entries))
  ensures [error] err != nil ==> !found
func (*GenericSet).Len
  props C02
  requires g.dict != nil
  ensures result == len(g.dict.entries)
func (*GenericSet).IsSuperset
  props C02
  requires setOK(s)
  modifies itpos(other)
  loop 1
    invariant itpos(other) >= old(itpos(other)) && forall j int {{itseq(other)[j]}} :: old(itpos(other)) <= j && j < itpos(other) ==> member(s, itseq(other)[j])
  ensures [superset] result1 == nil ==> (result0 <==> forall j int {{itseq(other)[j]}} :: old(itpos(other)) <= j && j < itn(other) ==> member(s, itseq(other)[j]))
  ensures [error] result1 != nil ==> !result0
func (*GenericSet).IsSubset
  props C02
  requires setOK(g) && setOK(other)
  loop 1
    invariant typeis(it, *keyIterator)
    invariant let k := it.(*keyIterator) :: k != nil && fresh(k) && k.entries == g.dict.entries && 0 <= k.i && k.i <= len(g.dict.entries)
    invariant let k := it.(*keyIterator) :: forall r int {{ents(g.dict)[r]}} :: lo(g.dict) <= r && r < lo(g.dict) + k.i ==> member(other, ents(g.dict)[r][0])
  ensures [subset] result1 == nil ==> (result0 <==> forall r int {{ents(g.dict)[r]}} :: lo(g.dict) <= r && r < hi(g.dict) ==> member(other, ents(g.dict)[r][0]))
func setsEqual
  props C02
  requires setOK(x) && setOK(y)
  loop 1
    invariant forall r int {{ents(x.dict)[r]}} :: lo(x.dict) <= r && r < lo(x.dict) + $k ==> member(y, ents(x.dict)[r][0])
  ensures [equal] result0 ==> len(x.dict.entries) == len(y.dict.entries) && forall r int {{ents(x.dict)[r]}} :: lo(x.dict) <= r && r < hi(x.dict) ==> member(y, ents(x.dict)[r][0])

