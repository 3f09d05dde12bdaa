package github.com/fizzbee-io/fizzbee/lib

// lexicographic order on prefixes: lt(a,b,k): equal before k and a smaller at k
macro sameUpTo(a, b, k) = forall j int {{a[j]}} {{b[j]}} :: 0 <= j && j < k ==> a[j] == b[j]

func sliceCompare
  props C05
  modifies nothing
  loop 1
    invariant 0 <= i && i <= len(a) && i <= len(b)
    invariant sameUpTo(a, b, i)
  ensures [less] result < 0 <==> (exists k int :: 0 <= k && k <= len(a) && k <= len(b) && sameUpTo(a, b, k) && ((k == len(a) && k < len(b)) || (k < len(a) && k < len(b) && a[k] < b[k])))
  ensures [equal] result == 0 <==> len(a) == len(b) && sameUpTo(a, b, len(a))
  ensures [greater] result > 0 <==> (exists k int :: 0 <= k && k <= len(a) && k <= len(b) && sameUpTo(a, b, k) && ((k == len(b) && k < len(a)) || (k < len(a) && k < len(b) && a[k] > b[k])))

// sorting keeps length and, as far as this file needs, the set of values
extern slices.Sort : x
  modifies elems(x)
  ensures forall i int, j int {{x[i], x[j]}} :: 0 <= i && i < j && j < len(x) ==> x[i] <= x[j]
  ensures forall r int {{contents(x)[r]}} :: off(x) <= r && r < off(x) + len(x) ==> exists q int {{old(contents(x)[q])}} :: off(x) <= q && q < off(x) + len(x) && contents(x)[r] == old(contents(x)[q])

func GetIntervalReflectionCandidates
  props C05
  modifies nothing
  loop 1
    invariant forall j int {{fwd[j]}} {{rev[j]}} :: 0 <= j && j < $k ==> fwd[j] == usedIDs[j] - usedIDs[0] && rev[j] == usedIDs[len(usedIDs)-1] - usedIDs[j]
  ensures [empty] len(usedIDs) == 0 ==> forward == nil && reverse == nil && !tied
  ensures [one] len(usedIDs) > 0 ==> (forward != nil || reverse != nil) && (tied <==> forward != nil && reverse != nil)
  ensures [forward] forward != nil ==> len(forward) == len(usedIDs) && forall i int :: 0 <= i && i < len(forward) ==> forward[i] == usedIDs[i] - usedIDs[0]
  ensures [reverse] reverse != nil ==> len(reverse) == len(usedIDs) && forall i int :: 0 <= i && i < len(reverse) ==> reverse[i] == usedIDs[len(usedIDs)-1] - usedIDs[i]

func GetOrdinalReflectionCandidates
  props C05
  modifies nothing
  loop 1
    invariant forall j int {{fwd[j]}} :: 0 <= j && j < $k ==> fwd[j] == j
  loop 2
    invariant forall j int {{rev[j]}} :: 0 <= j && j < $k ==> rev[j] == len(usedIDs) - 1 - j
  ensures [forward] len(usedIDs) > 0 ==> tied && len(forward) == len(usedIDs) && forall i int :: 0 <= i && i < len(forward) ==> forward[i] == i
  ensures [reverse] len(usedIDs) > 0 ==> len(reverse) == len(usedIDs) && forall i int :: 0 <= i && i < len(reverse) ==> reverse[i] == len(usedIDs) - 1 - i

macro mod(a, m) = ite(a % m < 0, a % m + m, a % m)
func applyRotationSignature
  props C05
  requires lim > 0 && lim < 4611686018427387904
  requires forall i int {{ids[i]}} :: 0 <= i && i < len(ids) ==> ids[i] + shift > -4611686018427387904 && ids[i] + shift < 4611686018427387904
  modifies nothing
  loop 1
    invariant forall j int {{sig[j]}} :: 0 <= j && j < $k ==> 0 <= sig[j] && sig[j] < lim && sig[j] == mod(ids[j] + shift, lim)
  ensures [len] len(result) == len(ids)
  ensures [sorted] forall i int, j int :: 0 <= i && i < j && j < len(result) ==> result[i] <= result[j]
  ensures [from] forall i int :: 0 <= i && i < len(result) ==> 0 <= result[i] && result[i] < lim && exists j int :: 0 <= j && j < len(ids) && result[i] == mod(ids[j] + shift, lim)

func GetCanonicalRotations
  props C05
  requires limit > 0 && limit < 4611686018427387904
  requires forall i int {{usedIDs[i]}} :: 0 <= i && i < len(usedIDs) ==> 0 <= usedIDs[i] && usedIDs[i] < limit
  modifies nothing
  loop 1
    invariant best == nil <==> $k == 0
    invariant len(best) > 0 <==> $k > 0
    invariant best == nil || fresh(arr(best))
    invariant forall r int {{contents(best)[r]}} :: off(best) <= r && r < off(best) + len(best) ==> exists j int {{usedIDs[j]}} :: 0 <= j && j < $k && contents(best)[r].pivot == usedIDs[j]
    invariant forall r int {{contents(best)[r]}} :: off(best) <= r && r < off(best) + len(best) ==> 0 <= contents(best)[r].pivot && contents(best)[r].pivot < limit
  loop 3
    invariant forall j int {{shifts[j]}} :: 0 <= j && j < $k ==> 0 <= shifts[j] && shifts[j] < limit && (shifts[j] + best[j].pivot == limit || shifts[j] + best[j].pivot == 0)
  ensures [some] len(result) > 0
  ensures [range] forall i int :: 0 <= i && i < len(result) ==> 0 <= result[i] && result[i] < limit
  ensures [pivot] len(usedIDs) > 0 ==> forall i int :: 0 <= i && i < len(result) ==> exists j int {{usedIDs[j]}} :: 0 <= j && j < len(usedIDs) && (usedIDs[j] + result[i] == limit || usedIDs[j] + result[i] == 0)
