package github.com/fizzbee-io/fizzbee/lib

// ---------- sync, assumed ----------
extern (*sync.Mutex).Lock
  modifies nothing
extern (*sync.Mutex).Unlock
  modifies nothing

// ---------- Stack ----------
macro stackInv(s) = (len(s.s) == 0 <==> s.peak == nil) && (len(s.s) == 0 <==> s.head == nil) && !interior(s.head) &&
   (len(s.s) > 0 ==> *s.peak == s.s[len(s.s)-1] && *s.head == s.s[0])

func NewStack
  props C01
  ensures [empty] fresh(result) && len(result.s) == 0
  ensures [inv] stackInv(result)

func (*Stack[T]).Push
  props C01
  requires stackInv(s)
  modifies s.s, s.peak, s.head, elems(s.s)
  ensures [chain] result == s
  ensures [len] len(s.s) == old(len(s.s)) + 1
  ensures [top] s.s[len(s.s)-1] == v
  ensures [rest] forall i int :: 0 <= i && i < old(len(s.s)) ==> s.s[i] == old(s.s[i])
  ensures [inv] stackInv(s)

func (*Stack[T]).Pop
  props C01
  requires stackInv(s)
  modifies s.s, s.peak, s.head, elems(s.s)
  ensures [empty] old(len(s.s)) == 0 ==> !result1 && len(s.s) == 0
  ensures [top] old(len(s.s)) > 0 ==> result1 && result0 == old(s.s[len(s.s)-1]) && len(s.s) == old(len(s.s)) - 1
  ensures [rest] forall i int :: 0 <= i && i < len(s.s) ==> s.s[i] == old(s.s[i])
  ensures [inv] stackInv(s)

func (*Stack[T]).Peek
  props C01
  requires stackInv(s)
  ensures [empty] result1 <==> len(s.s) > 0
  ensures [top] len(s.s) > 0 ==> result0 == s.s[len(s.s)-1]

func (*Stack[T]).Head
  props C01
  requires stackInv(s)
  ensures [empty] result1 <==> len(s.s) > 0
  ensures [bottom] len(s.s) > 0 ==> result0 == s.s[0]

func (*Stack[T]).Len
  props C01
  ensures [len] result == len(s.s)

func (*Stack[T]).Empty
  props C01
  ensures [empty] result <==> len(s.s) == 0

// ---------- container/list, assumed ----------
// A list is modelled as the elements lat(l)[lhead(l)], ..., lat(l)[ltail(l)-1].
ghostvar lhead(*list.List) int
ghostvar ltail(*list.List) int
ghostvar lat(*list.List) seq[*list.Element]
extern container/list.New
  ensures fresh(result) && lhead(result) == ltail(result)
extern (*container/list.List).Front
  modifies nothing
  ensures lhead(l) >= ltail(l) ==> result == nil
  ensures lhead(l) < ltail(l) ==> result == lat(l)[lhead(l)] && result != nil
extern (*container/list.List).Back
  modifies nothing
  ensures lhead(l) >= ltail(l) ==> result == nil
  ensures lhead(l) < ltail(l) ==> result == lat(l)[ltail(l)-1] && result != nil
extern (*container/list.List).PushBack
  modifies ltail(l), lat(l)
  ensures fresh(result) && result.Value == v
  ensures ltail(l) == old(ltail(l)) + 1 && lat(l) == seqput(old(lat(l)), old(ltail(l)), result)
extern (*container/list.List).Remove
  requires lhead(l) < ltail(l) && e == lat(l)[lhead(l)]
  modifies lhead(l)
  ensures lhead(l) == old(lhead(l)) + 1
extern (*container/list.List).Init
  modifies lhead(l), ltail(l)
  ensures lhead(l) == ltail(l)

// ---------- Queue ----------
// The queue's content is the concatenation of its batches; the batch with element e holds the positions
// qpos(e) .. qpos(e)+len-1 of that sequence. qpos is an arbitrary function with the stated properties.
ghost qpos(*list.Element) int
macro batch(e) = cast(e.Value.([]T), []T)
macro qElems(q) = q.list != nil && allocated(q.list) && lhead(q.list) <= ltail(q.list) && 0 <= lhead(q.list) &&
  (forall i int {{lat(q.list)[i]}} :: lhead(q.list) <= i && i < ltail(q.list) ==>
     allocated(lat(q.list)[i]) && typeis(lat(q.list)[i].Value, []T) && batch(lat(q.list)[i]) != nil && len(batch(lat(q.list)[i])) > 0 &&
     len(batch(lat(q.list)[i])) <= cap(batch(lat(q.list)[i])) && off(batch(lat(q.list)[i])) >= 0 && allocated(batch(lat(q.list)[i]))) &&
  (forall i int, j int {{lat(q.list)[i], lat(q.list)[j]}} :: lhead(q.list) <= i && i < j && j < ltail(q.list) ==>
     lat(q.list)[i] != lat(q.list)[j] && arr(batch(lat(q.list)[i])) != arr(batch(lat(q.list)[j])))

func NewQueue
  props C01
  ensures [empty] fresh(result) && lhead(result.list) == ltail(result.list) && result.count == 0 && result.list != nil
// P gives each batch's absolute position: consecutive batches are adjacent, and count is the total length.
ghost qposA() seq[int]
macro qCount(q, P) = (lhead(q.list) >= ltail(q.list) ==> q.count == 0) &&
  (lhead(q.list) < ltail(q.list) ==> q.count == P[lat(q.list)[ltail(q.list)-1]] + len(batch(lat(q.list)[ltail(q.list)-1])) - P[lat(q.list)[lhead(q.list)]]) &&
  (forall i int {{lat(q.list)[i]}} :: lhead(q.list) < i && i < ltail(q.list) ==>
     P[lat(q.list)[i]] == P[lat(q.list)[i-1]] + len(batch(lat(q.list)[i-1]))) &&
  (forall i int, j int {{lat(q.list)[i], lat(q.list)[j]}} :: lhead(q.list) <= i && i < j && j < ltail(q.list) ==>
     P[lat(q.list)[i]] + len(batch(lat(q.list)[i])) <= P[lat(q.list)[j]])

func (*Queue[T]).Enqueue
  props C01
  requires qElems(q)
  requires qCount(q, qposA())
  requires q.list != nil && allocated(q)
  noframe
  ensures [chain] result == q
  ensures [inv] qElems(q)
  ensures [count] qCount(q, ite(ltail(q.list) == old(ltail(q.list)), qposA(), seqput(qposA(), lat(q.list)[ltail(q.list)-1], qposA()[lat(q.list)[ltail(q.list)-2]] + len(batch(lat(q.list)[ltail(q.list)-2])))))
  ensures [last] batch(lat(q.list)[ltail(q.list)-1])[len(batch(lat(q.list)[ltail(q.list)-1]))-1] == v
  ensures [grow] q.list == old(q.list) && lhead(q.list) == old(lhead(q.list)) &&
    (ltail(q.list) == old(ltail(q.list)) && len(batch(lat(q.list)[ltail(q.list)-1])) == old(len(batch(lat(q.list)[ltail(q.list)-1]))) + 1 && lhead(q.list) < ltail(q.list) ||
     ltail(q.list) == old(ltail(q.list)) + 1 && len(batch(lat(q.list)[ltail(q.list)-1])) == 1)
  ensures [keep] forall i int {{lat(q.list)[i]}} :: lhead(q.list) <= i && i < old(ltail(q.list)) ==> lat(q.list)[i] == old(lat(q.list)[i]) &&
    (i < ltail(q.list) - 1 ==> len(batch(lat(q.list)[i])) == old(len(batch(lat(q.list)[i])))) &&
    (forall k int :: 0 <= k && k < old(len(batch(lat(q.list)[i]))) ==> batch(lat(q.list)[i])[k] == old(batch(lat(q.list)[i])[k]))
  ensures [total] q.count == old(q.count) + 1

func (*Queue[T]).Dequeue
  props C01
  requires qElems(q)
  requires qCount(q, qposA())
  requires q.list != nil && allocated(q)
  noframe
  ensures [empty] result1 <==> old(lhead(q.list) < ltail(q.list))
  ensures [inv] qElems(q)
  ensures [count] result1 ==> qCount(q, seqput(qposA(), old(lat(q.list)[lhead(q.list)]), qposA()[old(lat(q.list)[lhead(q.list)])] + 1))
  ensures [first] result1 ==> result0 == old(batch(lat(q.list)[lhead(q.list)])[0])
  ensures [shrink] result1 ==> q.list == old(q.list) && ltail(q.list) == old(ltail(q.list)) && q.count == old(q.count) - 1 &&
    (old(len(batch(lat(q.list)[lhead(q.list)]))) == 1 && lhead(q.list) == old(lhead(q.list)) + 1 ||
     old(len(batch(lat(q.list)[lhead(q.list)]))) > 1 && lhead(q.list) == old(lhead(q.list)) && len(batch(lat(q.list)[lhead(q.list)])) == old(len(batch(lat(q.list)[lhead(q.list)]))) - 1)
  ensures [keep] forall i int {{lat(q.list)[i]}} :: old(lhead(q.list)) < i && i < ltail(q.list) ==> lat(q.list)[i] == old(lat(q.list)[i]) &&
    len(batch(lat(q.list)[i])) == old(len(batch(lat(q.list)[i]))) &&
    (forall k int :: 0 <= k && k < len(batch(lat(q.list)[i])) ==> batch(lat(q.list)[i])[k] == old(batch(lat(q.list)[i])[k]))
  ensures [rest] result1 && lhead(q.list) == old(lhead(q.list)) ==> lat(q.list)[lhead(q.list)] == old(lat(q.list)[lhead(q.list)]) &&
    (forall k int :: 0 <= k && k < len(batch(lat(q.list)[lhead(q.list)])) ==> batch(lat(q.list)[lhead(q.list)])[k] == old(batch(lat(q.list)[lhead(q.list)])[k+1]))
  ensures [nochange] !result1 ==> q.count == old(q.count) && lhead(q.list) == old(lhead(q.list)) && ltail(q.list) == old(ltail(q.list))

func (*Queue[T]).Count
  props C01
  ensures result == q.count
func (*Queue[T]).Len
  props C01
  ensures result == q.count
func (*Queue[T]).ClearAll
  props C01
  requires q.list != nil
  noframe
  ensures [empty] lhead(q.list) == ltail(q.list) && q.count == 0
func (*Queue[T]).Empty
  props C01
  requires qElems(q)
  requires qCount(q, qposA())
  ensures [empty] result <==> lhead(q.list) >= ltail(q.list)

// ---------- RandomQueue ----------
extern (*math/rand.Rand).Intn
  modifies nothing
  ensures 0 <= result && result < n
func (*RandomQueue[T]).Add
  props C01
  modifies r.arr, elems(r.arr)
  ensures [len] len(r.arr) == old(len(r.arr)) + 1
  ensures [new] r.arr[old(len(r.arr))] == t
  ensures [rest] forall i int :: 0 <= i && i < old(len(r.arr)) ==> r.arr[i] == old(r.arr[i])
func (*RandomQueue[T]).Remove
  props C01
  modifies r.arr, elems(r.arr)
  ensures [empty] result1 <==> old(len(r.arr)) > 0
  ensures [len] len(r.arr) == old(len(r.arr)) - ite(result1, 1, 0)
  ensures [one] result1 ==> exists k int :: 0 <= k && k < old(len(r.arr)) && result0 == old(r.arr[k]) &&
     (forall j int :: 0 <= j && j < k ==> r.arr[j] == old(r.arr[j])) &&
     (forall j int :: k <= j && j < len(r.arr) ==> r.arr[j] == old(r.arr[j+1]))
func (*RandomQueue[T]).Len
  props C01
  ensures result == len(r.arr)
func (*RandomQueue[T]).Empty
  props C01
  ensures result <==> len(r.arr) == 0
func (*RandomQueue[T]).Clear
  props C01
  requires n >= 0
  modifies r.arr
  ensures [len] len(r.arr) == max(0, old(len(r.arr)) - n)
  ensures [rest] forall i int :: 0 <= i && i < len(r.arr) ==> r.arr[i] == old(r.arr[i+n])
func (*RandomQueue[T]).ClearAll
  props C01
  modifies r.arr
  ensures len(r.arr) == 0
func (*RandomQueue[T]).Retain
  props C01
  requires n >= 0
  modifies r.arr
  ensures [len] len(r.arr) == min(n, old(len(r.arr)))
  ensures [rest] forall i int :: 0 <= i && i < len(r.arr) ==> r.arr[i] == old(r.arr[i])
