package github.com/fizzbee-io/fizzbee/modelchecker

func (*Process).minHashCode
  props C05 C06
  opaque HashCode
  noframe
  loop 1
    invariant exists r int {{contents(hashes)[r]}} :: off(hashes) <= r && r < off(hashes) + len(hashes) && canonical == contents(hashes)[r]
    invariant forall j int {{hashes[j]}} :: 0 <= j && j <= $k && j < len(hashes) ==> !(hashes[j] < canonical)
  ensures [some] len(hashes) > 0 ==> exists r int {{contents(hashes)[r]}} :: off(hashes) <= r && r < off(hashes) + len(hashes) && result == contents(hashes)[r]
  ensures [least] len(hashes) > 0 ==> forall j int :: 0 <= j && j < len(hashes) ==> !(hashes[j] < result)

// a collector records each (domain, id) visited, and nothing else
macro seen(c, p, i) = p in dom(c.usedValues) && i in dom(c.usedValues[p])
macro collOK(c) = c.usedValues != nil && c.limits != nil && c.pointers != nil && (forall n string {{c.usedValues[n]}} :: n in dom(c.usedValues) ==> allocated(c.usedValues[n]) && c.usedValues[n] != nil)
  && (forall n string {{c.pointers[n]}} :: n in dom(c.usedValues) ==> n in dom(c.pointers) && c.pointers[n] != nil && allocated(c.pointers[n]))
macro collSep(c) = forall n string, m string {{c.usedValues[n], c.usedValues[m]}} :: n in dom(c.usedValues) && m in dom(c.usedValues) && n != m ==> c.usedValues[n] != c.usedValues[m]
func (*UsedSymmetricValuesCollector).VisitSymmetricValue
  props C05 C04
  requires collOK(c) && collSep(c) && sv != nil
  modifies every("map[string]map[int64]bool"), every("map[int64]bool"), every("map[string]int"), every("map[string]map[int64]*lib.SymmetricValue"), every("map[int64]*lib.SymmetricValue")
  ensures [inv] collOK(c) && collSep(c)
  ensures [adds] forall p string, i int64 {{i in dom(c.usedValues[p])}} :: seen(c, p, i) <==> old(seen(c, p, i)) || (p == sv.prefix && i == sv.id)

func (*UsedSymmetricValuesCollector).GetUsedIds
  props C05
  requires collOK(c)
  modifies nothing
  loop 1
    invariant forall r int {{contents(ids)[r]}} :: off(ids) <= r && r < off(ids) + len(ids) ==> contents(ids)[r] in $seen && contents(ids)[r] in dom(c.usedValues[prefix])
    invariant forall i int64 {{i in $seen}} :: i in $seen ==> exists r int {{contents(ids)[r]}} :: off(ids) <= r && r < off(ids) + len(ids) && contents(ids)[r] == i
    invariant fresh(arr(ids))
  ensures [used] forall r int {{contents(result)[r]}} :: off(result) <= r && r < off(result) + len(result) ==> seen(c, prefix, contents(result)[r])
  ensures [sorted] forall i int, j int :: 0 <= i && i < j && j < len(result) ==> result[i] <= result[j]
