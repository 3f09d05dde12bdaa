package github.com/fizzbee-io/fizzbee/modelchecker

func (*Stats).Clone
  props C07
  requires s != nil && s.Counts != nil && allocated(s.Counts)
  modifies nothing
  loop 1
    invariant fresh(stats.Counts) && fresh(stats) && stats.TotalActions == s.TotalActions && stats.Counts != s.Counts && s.Counts == old(s.Counts)
    invariant forall k string {{k in dom(s.Counts)}} :: (k in dom(s.Counts) <==> old(k in dom(s.Counts))) && s.Counts[k] == old(s.Counts[k])
    invariant forall k string {{k in dom(stats.Counts)}} :: k in dom(stats.Counts) <==> k in $seen
    invariant forall k string {{k in $seen}} :: k in $seen ==> stats.Counts[k] == s.Counts[k] && k in dom(s.Counts)
  ensures [new] fresh(result) && fresh(result.Counts)
  ensures [total] result.TotalActions == s.TotalActions
  ensures [only] forall k string {{k in dom(result.Counts)}} :: k in dom(result.Counts) ==> k in dom(s.Counts)
  ensures [all] forall k string {{k in dom(s.Counts)}} :: k in dom(s.Counts) ==> k in dom(result.Counts)
  ensures [counts] forall k string {{result.Counts[k]}} :: k in dom(s.Counts) ==> result.Counts[k] == s.Counts[k]

func (*Stats).Increment
  props C07 C11
  requires s != nil && s.Counts != nil
  modifies s.TotalActions, map(s.Counts)
  ensures [total] s.TotalActions == old(s.TotalActions) + 1
  ensures [count] action in dom(s.Counts) && s.Counts[action] == ite(old(action in dom(s.Counts)), old(s.Counts[action]), 0) + 1
  ensures [others] forall k string {{k in dom(s.Counts)}} :: k != action ==> (k in dom(s.Counts) <==> old(k in dom(s.Counts))) && s.Counts[k] == old(s.Counts[k])

// chains of scopes end
ghost depthOf(*Scope) int
axiom depthPos : forall x *Scope {{depthOf(x)}} :: depthOf(x) >= 0
macro scopesOK() = forall x *Scope {{x.parent}} :: x != nil && x.parent != nil ==> depthOf(x) > depthOf(x.parent) && allocated(x.parent)

// a deep copy touches nothing that existed before but the table of copies made so far (assumed; the copy itself is
// checked by the executable contracts)
extern github.com/fizzbee-io/fizzbee/modelchecker.deepCloneStarlarkValueWithPermutations : value, refs, permutations, alt
  modifies map(refs)
  ensures scopesOK()
extern github.com/fizzbee-io/fizzbee/modelchecker.CloneDict : oldDict, refs, permutations, alt
  modifies map(refs)
  ensures scopesOK()
  ensures fresh(result) && result != nil

extern slices.Clone : s
  modifies nothing
  ensures len(result) == len(s) && (s == nil <==> result == nil) && (len(s) > 0 ==> fresh(arr(result)))
  ensures forall i int {{result[i]}} :: 0 <= i && i < len(s) ==> result[i] == s[i]

func (*Scope).Clone
  props C07
  requires scopesOK()
  decreases ite(s == nil, 0, depthOf(s) + 1)
  modifies map(refs)
  loop 1
    invariant fresh(newScope) && newScope != nil && arr(newScope.loopRange) == entry(arr(newScope.loopRange))
  ensures [nil] s == nil <==> result == nil
  ensures [new] s != nil ==> fresh(result) && result.flow == s.flow
  ensures [parent] s != nil ==> (s.parent == nil <==> result.parent == nil)
  ensures [vars] s != nil ==> fresh(result.vars)
  ensures [shared] s != nil && s.parent != nil ==> result.vars == result.parent.vars
  ensures [skip] s != nil ==> len(result.skipstmts) == len(s.skipstmts) && forall i int :: 0 <= i && i < len(s.skipstmts) ==> result.skipstmts[i] == s.skipstmts[i]
  ensures [skipnew] s != nil && len(s.skipstmts) > 0 ==> fresh(arr(result.skipstmts))
  ensures [loopnew] s != nil && s.loopRange != nil ==> fresh(arr(result.loopRange)) && len(result.loopRange) == len(s.loopRange)

func (*CallFrame).Clone
  props C07
  requires c != nil
  requires scopesOK()
  modifies map(refs)
  ensures [new] result1 == nil ==> fresh(result)
  ensures [same] result1 == nil ==> result.FileIndex == c.FileIndex && result.pc == c.pc && result.Name == c.Name
  ensures [args] result1 == nil ==> fresh(result.vars)
  ensures [scope] result1 == nil ==> (c.scope == nil <==> result.scope == nil) && (c.scope != nil ==> fresh(result.scope))
  ensures [obj] result1 == nil && c.obj == nil ==> result.obj == nil

// the roles of the copy are the copies of the roles that were reached, in the same order
macro isCopy(m, r, o) = r != nil && iface(r) in dom(m) && o == m[iface(r)].(*lib.Role)
func MapRoleValuesInOrder
  props C07
  requires m != nil
  requires forall v starlark.Value {{m[v]}} :: v in dom(m) && typeis(v, *lib.Role) ==> typeis(m[v], *lib.Role)
  modifies nothing
  loop 1
    invariant off(r) == 0 && fresh(arr(r)) && arr(r) != arr(oldList)
    invariant forall j int {{oldList[j]}} :: 0 <= j && j < len(oldList) ==> oldList[j] == old(oldList[j])
    invariant forall q int {{contents(r)[q]}} :: off(r) <= q && q < off(r) + len(r) ==> exists j int {{oldList[j]}} :: 0 <= j && j < $k && isCopy(m, oldList[j], contents(r)[q])
    invariant forall j int {{oldList[j]}} :: 0 <= j && j < $k && oldList[j] != nil && iface(oldList[j]) in dom(m) ==> exists q int {{contents(r)[q]}} :: off(r) <= q && q < off(r) + len(r) && contents(r)[q] == m[iface(oldList[j])].(*lib.Role)
  loop 2
  ensures [only] forall q int {{contents(result)[q]}} :: off(result) <= q && q < off(result) + len(result) ==> exists j int {{oldList[j]}} :: 0 <= j && j < len(oldList) && isCopy(m, oldList[j], contents(result)[q])
  ensures [all] forall j int {{oldList[j]}} :: 0 <= j && j < len(oldList) && oldList[j] != nil && iface(oldList[j]) in dom(m) ==> exists q int {{contents(result)[q]}} :: off(result) <= q && q < off(result) + len(result) && contents(result)[q] == m[iface(oldList[j])].(*lib.Role)
