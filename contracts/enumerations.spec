package github.com/fizzbee-io/fizzbee/lib

// C03: enumerations are complete.

ghost fact(int) int
axiom fact1: fact(1) == 1
axiom factn: forall n int {{fact(n)}} :: n > 1 ==> fact(n) == n * fact(n - 1)

func permute
  props C03
  requires 0 <= l && l <= r && r < len(arr) && result != nil
  noframe
  decreases r - l
  loop 1
    invariant l <= i && i <= r + 1
    invariant forall q int {{arr[q]}} :: 0 <= q && q < len(arr) ==> arr[q] == old(arr[q])
    invariant len(*result) == old(len(*result)) + (i - l) * fact(r - l)
  ensures [count] len(*result) == old(len(*result)) + fact(r - l + 1)
  ensures [restored] forall q int {{arr[q]}} :: 0 <= q && q < len(arr) ==> arr[q] == old(arr[q])

func GeneratePermutations
  props C03
  requires len(arr) > 0
  noframe
  ensures [count] len(result) == fact(len(arr))

// combos(k): the number of ways to choose one element of each of arrays[k:]. The requirement is its definition.
ghost combos(int) int

func combinePermutations
  props C03
  requires result != nil && 0 <= index && index <= len(arrays)
  requires combos(len(arrays)) == 1
  requires forall k int {{combos(k)}} :: 0 <= k && k < len(arrays) ==> combos(k) == len(arrays[k]) * combos(k + 1)
  requires *result == nil || arr(*result) != arr(arrays)
  noframe
  decreases len(arrays) - index
  loop 2
    invariant len(*result) == old(len(*result)) + ($k) * combos(index + 1)
    invariant forall k int {{arrays[k]}} :: 0 <= k && k < len(arrays) ==> arrays[k] == old(arrays[k])
    invariant *result == nil || arr(*result) != arr(arrays)
    invariant len(current) == old(len(current))
  ensures [count] len(*result) == old(len(*result)) + combos(index)
  ensures [input] forall k int {{arrays[k]}} :: 0 <= k && k < len(arrays) ==> arrays[k] == old(arrays[k])
  ensures *result == nil || arr(*result) != arr(arrays)

// a member of an enum is a name with itself as its value, and no name has two members

extern go.starlark.net/starlarkstruct.FromKeywords : constructor, all
  modifies nothing

func MakeEnum
  props C03
  requires forall q int {{kwargs[q]}} :: 0 <= q && q < len(kwargs) ==> len(kwargs[q]) == 2
  noframe
  oncall starlarkstruct.FromKeywords [strings] forall q int {{all[q]}} :: 0 <= q && q < len(all) ==> len(all[q]) == 2 && typeis(all[q][0], starlark.String)
  oncall starlarkstruct.FromKeywords [distinct] forall p int, q int {{all[p], all[q]}} :: 0 <= p && p < q && q < len(all) ==> all[p][0].(starlark.String) != all[q][0].(starlark.String)
  oncall starlarkstruct.FromKeywords [count] len(all) >= len(args)
  oncall starlarkstruct.FromKeywords [members] forall q int {{all[q]}} :: len(all) - len(args) <= q && q < len(all) ==> all[q][0] == args[q - (len(all) - len(args))] && all[q][1] == all[q][0]
  loop 1
    invariant [len] len(kwargs) == entry(len(kwargs)) + $k
    invariant [pairs] forall q int {{kwargs[q]}} :: 0 <= q && q < len(kwargs) ==> len(kwargs[q]) == 2
    invariant [members] forall q int {{kwargs[q]}} :: entry(len(kwargs)) <= q && q < len(kwargs) ==> fresh(arr(kwargs[q])) && kwargs[q][0] == entry(args[q - len(kwargs)]) && kwargs[q][1] == kwargs[q][0]
  loop 2
    invariant [strings] forall q int {{kwargs[q]}} :: 0 <= q && q < $k ==> typeis(kwargs[q][0], starlark.String) && kwargs[q][0].(starlark.String) in dom(seen)
    invariant [seen] forall k starlark.String {{k in dom(seen)}} :: k in dom(seen) ==> seen[k]
    invariant [distinct] forall p int, q int {{kwargs[p], kwargs[q]}} :: 0 <= p && p < q && q < $k ==> kwargs[p][0].(starlark.String) != kwargs[q][0].(starlark.String)
