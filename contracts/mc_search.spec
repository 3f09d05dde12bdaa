package github.com/fizzbee-io/fizzbee/modelchecker

// C12: nothing that is scheduled or found is lost, whatever the search mode.

// A linear collection is described by the log of everything that was added to it: clog(c)[0], ..., clog(c)[cadd(c)-1].
// What the implementations remove is C01's subject.
ghostvar cadd(any) int
ghostvar clog(any) seq[*Node]
ghost clen(any; int) int
extern (github.com/fizzbee-io/fizzbee/lib.LinearCollection).Add : self, v
  modifies cadd(self), clog(self)
  ensures cadd(self) == old(cadd(self)) + 1 && clog(self) == seqput(old(clog(self)), old(cadd(self)), v)
extern (github.com/fizzbee-io/fizzbee/lib.LinearCollection).Len : self
  modifies nothing

func (*Processor).addToProcessingQueue
  props C12
  requires p != nil && p.queue != nil && cadd(p.queue) >= 0
  modifies p.peakQueueLen, cadd(p.queue), clog(p.queue)
  ensures [added] cadd(p.queue) == old(cadd(p.queue)) + 1 && clog(p.queue)[old(cadd(p.queue))] == node
  ensures [kept] forall q int {{clog(p.queue)[q]}} :: 0 <= q && q < old(cadd(p.queue)) ==> clog(p.queue)[q] == old(clog(p.queue)[q])
  ensures [peak] p.peakQueueLen >= old(p.peakQueueLen)

func (*Processor).enqueueScheduled
  props C12
  requires p != nil && p.queue != nil && cadd(p.queue) >= 0
  modifies p.peakQueueLen, p.peakPendingActionStarts, p.pendingActionStarts, elems(p.pendingActionStarts), cadd(p.queue), clog(p.queue)
  ensures [graph] !p.experimentalProcessedQueue ==> cadd(p.queue) == old(cadd(p.queue)) + 1 && clog(p.queue)[old(cadd(p.queue))] == node && p.pendingActionStarts == old(p.pendingActionStarts)
  ensures [pending] p.experimentalProcessedQueue ==> cadd(p.queue) == old(cadd(p.queue)) && len(p.pendingActionStarts) == old(len(p.pendingActionStarts)) + 1 && p.pendingActionStarts[len(p.pendingActionStarts)-1] == node
  ensures [kept] forall q int {{p.pendingActionStarts[q]}} :: 0 <= q && q < old(len(p.pendingActionStarts)) ==> p.pendingActionStarts[q] == old(p.pendingActionStarts[q])
  ensures [log] forall q int {{clog(p.queue)[q]}} :: 0 <= q && q < old(cadd(p.queue)) ==> clog(p.queue)[q] == old(clog(p.queue)[q])

func (*Processor).flushExpandedYieldPoints
  props C12
  requires p != nil && p.queue != nil && cadd(p.queue) >= 0
  modifies p.peakQueueLen, p.expandedYieldPoints, elems(p.expandedYieldPoints), cadd(p.queue), clog(p.queue)
  loop 1
    invariant p.expandedYieldPoints == old(p.expandedYieldPoints) && p.queue == old(p.queue)
    invariant cadd(p.queue) == old(cadd(p.queue)) + $k
    invariant forall q int {{clog(p.queue)[q]}} :: 0 <= q && q < old(cadd(p.queue)) ==> clog(p.queue)[q] == old(clog(p.queue)[q])
    invariant forall q int {{clog(p.queue)[q]}} :: old(cadd(p.queue)) <= q && q < old(cadd(p.queue)) + $k ==> clog(p.queue)[q] == old(p.expandedYieldPoints[q - cadd(p.queue)])
    invariant forall i int {{p.expandedYieldPoints[i]}} :: $k <= i && i < len(p.expandedYieldPoints) ==> p.expandedYieldPoints[i] == old(p.expandedYieldPoints[i])
  ensures [count] cadd(p.queue) == old(cadd(p.queue)) + old(len(p.expandedYieldPoints))
  ensures [all] forall q int {{clog(p.queue)[q]}} :: old(cadd(p.queue)) <= q && q < cadd(p.queue) ==> clog(p.queue)[q] == old(p.expandedYieldPoints[q - cadd(p.queue)])
  ensures [kept] forall q int {{clog(p.queue)[q]}} :: 0 <= q && q < old(cadd(p.queue)) ==> clog(p.queue)[q] == old(clog(p.queue)[q])
  ensures [emptied] len(p.expandedYieldPoints) == 0

func (*Processor).GetUniqueYieldCount
  props C12
  requires p != nil
  modifies nothing
  ensures [count] result == p.uniqueYieldCount

func (*Processor).breakParentRef
  props C12
  requires p != nil && child != nil && (len(child.Inbound) > 0 ==> child.Inbound[0] != nil)
  modifies child.Inbound[0].Node
  ensures [graph] !p.experimentalNoGraph && len(child.Inbound) > 0 ==> child.Inbound[0].Node == old(child.Inbound[0].Node)
  ensures [dropped] p.experimentalNoGraph && len(child.Inbound) > 0 ==> child.Inbound[0].Node == nil

func (*Processor).extendPath
  props C12
  requires p != nil && child != nil
  modifies child.pathTail
  ensures [graph] !p.experimentalNoGraph ==> child.pathTail == old(child.pathTail)
  ensures [first] p.experimentalNoGraph && parent == nil ==> fresh(child.pathTail) && child.pathTail.name == name && child.pathTail.parent == nil
  ensures [next] p.experimentalNoGraph && parent != nil ==> fresh(child.pathTail) && child.pathTail.name == name && child.pathTail.parent == old(parent.pathTail)

func (*Processor).inheritPath
  props C12
  requires p != nil && child != nil
  modifies child.pathTail
  ensures [kept] !p.experimentalNoGraph || parent == nil ==> child.pathTail == old(child.pathTail)
  ensures [same] p.experimentalNoGraph && parent != nil ==> child.pathTail == old(parent.pathTail)

// plen: the length of the action-name chain, a chain has no cycles.
ghost plen(*pathNode) int
macro pathOK() = plen(nil) == 0 && forall n *pathNode {{n.parent}} :: n != nil ==> plen(n) == plen(n.parent) + 1 && plen(n) > 0 && (n.parent != nil ==> plen(n.parent) > 0)

func collectPath
  props C12
  requires plen(nil) == 0 && plen(tail) >= 0 && (tail != nil ==> allocated(tail)) && forall n *pathNode {{n.parent}} :: n != nil ==> plen(n) == plen(n.parent) + 1 && plen(n.parent) >= 0 && (n.parent != nil ==> allocated(n.parent))
  modifies nothing
  loop 1
    invariant depth >= 0 && depth + plen(p) == plen(tail) && plen(p) >= 0 && (p != nil ==> allocated(p) && !fresh(p))
  loop 2
    invariant off(out) == 0 && len(out) == plen(tail) && fresh(arr(out))
    invariant i + 1 == plen(p) && plen(p) >= 0 && plen(p) <= len(out) && (p != nil ==> allocated(p) && !fresh(p))
    invariant p != tail ==> plen(p) < len(out)
    invariant p == tail || len(out) > 0 && contents(out)[len(out)-1] == tail.name
  ensures [all] len(result) == plen(tail)
  ensures [last] tail != nil ==> result[len(result)-1] == tail.name

func (*Node).PathNames
  props C12
  requires plen(nil) == 0 && (n != nil ==> plen(n.pathTail) >= 0) && forall m *pathNode {{m.parent}} :: m != nil ==> plen(m) == plen(m.parent) + 1 && plen(m.parent) >= 0 && (m.parent != nil ==> allocated(m.parent))
  modifies nothing
  ensures [all] n != nil ==> len(result) == plen(n.pathTail)
  ensures [last] n != nil && n.pathTail != nil ==> result[len(result)-1] == n.pathTail.name

macro widthOK(p, process) = p.witnessed != nil ==> len(p.witnessed) == len(process.Witness) && forall i int {{p.witnessed[i]}} :: 0 <= i && i < len(process.Witness) ==> len(p.witnessed[i]) == len(process.Witness[i])

func (*Processor).recordWitnesses
  props C12
  requires p != nil && process != nil && len(process.Witness) == 1 && (p.witnessed != nil ==> len(p.witnessed) == 1 && len(p.witnessed[0]) == len(process.Witness[0]) && arr(p.witnessed[0]) != arr(process.Witness[0]) && arr(p.witnessed) != arr(process.Witness))
  modifies p.witnessed, elems(p.witnessed[0])
  loop 1
    invariant len(p.witnessed) == 1 && fresh(arr(p.witnessed)) && off(p.witnessed) == 0 && ($k > 0 ==> len(p.witnessed[0]) == len(process.Witness[0]) && fresh(arr(p.witnessed[0])) && forall j int {{p.witnessed[0][j]}} :: 0 <= j && j < len(p.witnessed[0]) ==> !p.witnessed[0][j])
  loop 2
    invariant p.witnessed != nil && len(p.witnessed) == 1 && len(p.witnessed[0]) == len(process.Witness[0])
    invariant old(p.witnessed) != nil ==> p.witnessed == old(p.witnessed) && p.witnessed[0] == old(p.witnessed[0])
    invariant $k == 0 ==> forall j int {{p.witnessed[0][j]}} :: 0 <= j && j < len(p.witnessed[0]) ==> (p.witnessed[0][j] <==> old(p.witnessed) != nil && old(p.witnessed[0][j]))
    invariant $k > 0 ==> forall j int {{p.witnessed[0][j]}} :: 0 <= j && j < len(p.witnessed[0]) ==> (p.witnessed[0][j] <==> old(p.witnessed) != nil && old(p.witnessed[0][j]) || process.Witness[0][j])
  loop 3
    invariant p.witnessed != nil && len(p.witnessed) == 1 && len(p.witnessed[0]) == len(process.Witness[0])
    invariant old(p.witnessed) != nil ==> p.witnessed == old(p.witnessed) && p.witnessed[0] == old(p.witnessed[0])
    invariant forall j int {{p.witnessed[0][j]}} :: 0 <= j && j < $k && j < len(p.witnessed[0]) ==> (p.witnessed[0][j] <==> old(p.witnessed) != nil && old(p.witnessed[0][j]) || process.Witness[0][j])
    invariant forall j int {{p.witnessed[0][j]}} :: $k <= j && j < len(p.witnessed[0]) ==> (p.witnessed[0][j] <==> old(p.witnessed) != nil && old(p.witnessed[0][j]))
  ensures [shape] p.witnessed != nil && len(p.witnessed) == 1 && len(p.witnessed[0]) == len(process.Witness[0])
  ensures [recorded] forall j int {{p.witnessed[0][j]}} :: 0 <= j && j < len(p.witnessed[0]) ==> (p.witnessed[0][j] <==> old(p.witnessed) != nil && old(p.witnessed[0][j]) || process.Witness[0][j])

macro isExists(inv) = inv.Block != nil && exists i int {{inv.TemporalOperators[i]}} :: 0 <= i && i < len(inv.TemporalOperators) && inv.TemporalOperators[i] == "exists"
macro unwitnessed(p, j) = p.witnessed == nil || !p.witnessed[0][j]
func (*Processor).MissingExistsWitnesses
  props C12
  requires p != nil && len(p.Files) == 1 && p.Files[0] != nil && (p.witnessed != nil ==> len(p.witnessed) == 1 && len(p.witnessed[0]) == len(p.Files[0].Invariants))
  requires forall j int {{p.Files[0].Invariants[j]}} :: 0 <= j && j < len(p.Files[0].Invariants) ==> p.Files[0].Invariants[j] != nil && allocated(p.Files[0].Invariants[j])
  modifies nothing
  loop 1
    invariant off(missing) == 0 && fresh(arr(missing))
    invariant forall q int {{contents(missing)[q]}} :: 0 <= q && q < len(missing) ==> contents(missing)[q] != nil && fresh(contents(missing)[q])
    invariant $k == 0 ==> len(missing) == 0
    invariant forall q int {{contents(missing)[q]}} :: 0 <= q && q < len(missing) ==> contents(missing)[q].FileIndex == 0 && 0 <= contents(missing)[q].InvariantIndex && contents(missing)[q].InvariantIndex < len(p.Files[0].Invariants) && isExists(p.Files[0].Invariants[contents(missing)[q].InvariantIndex]) && unwitnessed(p, contents(missing)[q].InvariantIndex)
    invariant $k > 0 ==> forall j int {{p.Files[0].Invariants[j]}} :: 0 <= j && j < len(p.Files[0].Invariants) && isExists(p.Files[0].Invariants[j]) && unwitnessed(p, j) ==> exists q int {{contents(missing)[q]}} :: 0 <= q && q < len(missing) && contents(missing)[q].InvariantIndex == j
  loop 2
    invariant off(missing) == 0 && fresh(arr(missing))
    invariant forall q int {{contents(missing)[q]}} :: 0 <= q && q < len(missing) ==> contents(missing)[q] != nil && fresh(contents(missing)[q])
    invariant forall q int {{contents(missing)[q]}} :: 0 <= q && q < len(missing) ==> contents(missing)[q].FileIndex == 0 && 0 <= contents(missing)[q].InvariantIndex && contents(missing)[q].InvariantIndex < $k && contents(missing)[q].InvariantIndex < len(p.Files[0].Invariants) && isExists(p.Files[0].Invariants[contents(missing)[q].InvariantIndex]) && unwitnessed(p, contents(missing)[q].InvariantIndex)
    invariant forall j int {{p.Files[0].Invariants[j]}} :: 0 <= j && j < $k && isExists(p.Files[0].Invariants[j]) && unwitnessed(p, j) ==> exists q int {{contents(missing)[q]}} :: 0 <= q && q < len(missing) && contents(missing)[q].InvariantIndex == j
  ensures [missing] forall q int {{contents(result)[q]}} :: 0 <= q && q < len(result) ==> contents(result)[q].FileIndex == 0 && isExists(p.Files[0].Invariants[contents(result)[q].InvariantIndex]) && unwitnessed(p, contents(result)[q].InvariantIndex)
  ensures [all] forall j int {{p.Files[0].Invariants[j]}} :: 0 <= j && j < len(p.Files[0].Invariants) && isExists(p.Files[0].Invariants[j]) && unwitnessed(p, j) ==> exists q int {{contents(result)[q]}} :: 0 <= q && q < len(result) && contents(result)[q].InvariantIndex == j

func (*Processor).publishYieldPoint
  props C12
  opaque scheduleSuccessors YieldNode YieldFork
  requires p != nil && yp != nil && yp.Process != nil && p.experimentalProcessedQueue && len(yp.Process.Witness) == 1
  requires p.witnessed != nil ==> len(p.witnessed) == 1 && len(p.witnessed[0]) == len(yp.Process.Witness[0]) && arr(p.witnessed[0]) != arr(yp.Process.Witness[0]) && arr(p.witnessed) != arr(yp.Process.Witness)
  modifies p.uniqueYieldCount, p.expandedYieldPoints, elems(p.expandedYieldPoints), p.witnessed, elems(p.witnessed[0]), yp.yieldForks, yp.Process.IsYield
  ensures [counted] p.uniqueYieldCount == old(p.uniqueYieldCount) + 1
  ensures [published] len(p.expandedYieldPoints) == old(len(p.expandedYieldPoints)) + 1 && p.expandedYieldPoints[len(p.expandedYieldPoints)-1] == yp && yp.yieldForks == forks
  ensures [kept] forall q int {{p.expandedYieldPoints[q]}} :: 0 <= q && q < old(len(p.expandedYieldPoints)) ==> p.expandedYieldPoints[q] == old(p.expandedYieldPoints[q])
  ensures [yield] yp.Process.IsYield
  ensures [witness] p.experimentalNoGraph ==> p.witnessed != nil && len(p.witnessed) == 1 && forall j int {{p.witnessed[0][j]}} :: 0 <= j && j < len(p.witnessed[0]) && yp.Process.Witness[0][j] ==> p.witnessed[0][j]

func (*Node).Attach
  props C12
  requires n != nil && (len(n.Inbound) > 0 ==> n.Inbound[0] != nil && (n.Inbound[0].Node != nil ==> arr(n.Inbound) != arr(n.Inbound[0].Node.Outbound)))
  modifies n.Inbound[0].Node.Outbound, elems(n.Inbound[0].Node.Outbound)
  ensures [linked] len(n.Inbound) > 0 && n.Inbound[0].Node != nil ==> len(n.Inbound[0].Node.Outbound) == old(len(n.Inbound[0].Node.Outbound)) + 1 && outOf(n.Inbound[0].Node, n, n.Inbound[0])
  ensures [kept] len(n.Inbound) > 0 && n.Inbound[0].Node != nil ==> forall q int {{n.Inbound[0].Node.Outbound[q]}} :: 0 <= q && q < old(len(n.Inbound[0].Node.Outbound)) ==> n.Inbound[0].Node.Outbound[q] == old(n.Inbound[0].Node.Outbound[q])
macro outOf(parent, n, l) = parent.Outbound[len(parent.Outbound)-1].Node == n && parent.Outbound[len(parent.Outbound)-1].Name == l.Name && parent.Outbound[len(parent.Outbound)-1].Type == l.Type && parent.Outbound[len(parent.Outbound)-1].Labels == l.Labels && parent.Outbound[len(parent.Outbound)-1].Fairness == l.Fairness && parent.Outbound[len(parent.Outbound)-1].ReqId == l.ReqId && parent.Outbound[len(parent.Outbound)-1].Messages == l.Messages && parent.Outbound[len(parent.Outbound)-1].Returns == l.Returns
