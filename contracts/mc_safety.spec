package github.com/fizzbee-io/fizzbee/modelchecker

// C13: what is checked, where, and what is reported.

extern slices.Contains : s, v
  modifies nothing
  ensures result <==> exists i int {{s[i]}} :: 0 <= i && i < len(s) && s[i] == v
extern slices.Reverse : s
  modifies elems(s)
  ensures forall i int {{s[i]}} :: 0 <= i && i < len(s) ==> s[i] == old(s[len(s) - 1 - i])

macro yieldName(n) = n == "yield" || n == "crash" || n == "init"

func (*Process).IsYieldNode
  props C13
  modifies nothing
  ensures [yield] result <==> p != nil && (p.IsYield || yieldName(p.Name))

func (*Link).IsCrashLink
  props C13 C17
  requires l != nil
  modifies nothing
  ensures [crash] result <==> l.Name == "crash" || hasPrefix(l.Name, "crash-role")

func isStepEnd
  props C13 C17
  requires node != nil && node.Process != nil
  modifies nothing
  ensures [end] result <==> yieldName(node.Process.Name)

func (*Process).nameStep
  props C13
  requires p != nil
  modifies p.Name
  ensures [inner] !old(yieldName(p.Name)) ==> p.Name == old(p.Name)
  ensures [start] old(p.Name) == "yield" || old(p.Name) == "crash" ==> p.Name == name

func (*Process).stepOrigin
  props C13
  requires p != nil
  modifies nothing
  loop 1
    invariant p.Parent == nil ==> origin == nil
    invariant p.Parent != nil && p.Parent.IsYield ==> origin == p.Parent
    invariant p.Parent != nil ==> origin != nil
  ensures [none] result == nil <==> p.Parent == nil
  ensures [origin] result != nil ==> result.IsYield || result.Parent == nil
  ensures [nearest] p.Parent != nil && p.Parent.IsYield ==> result == p.Parent

macro opIn(inv, s) = exists q int {{inv.TemporalOperators[q]}} :: 0 <= q && q < len(inv.TemporalOperators) && inv.TemporalOperators[q] == s
macro isTrans(inv) = inv.Block != nil && opIn(inv, "transition")
macro filesOK(p) = forall i int {{p.Files[i]}} :: 0 <= i && i < len(p.Files) ==> p.Files[i] != nil && (forall j int {{p.Files[i].Invariants[j]}} :: 0 <= j && j < len(p.Files[i].Invariants) ==> p.Files[i].Invariants[j] != nil)

func (*Process).hasTransitionAssertions
  props C13
  requires p != nil && filesOK(p)
  modifies nothing
  loop 1
    invariant forall i int {{p.Files[i]}} :: 0 <= i && i < $k ==> forall j int {{p.Files[i].Invariants[j]}} :: 0 <= j && j < len(p.Files[i].Invariants) ==> !isTrans(p.Files[i].Invariants[j])
  loop 2
    invariant forall j int {{file.Invariants[j]}} :: 0 <= j && j < $k ==> !isTrans(file.Invariants[j])
  ensures [some] result ==> exists i int {{p.Files[i]}} :: 0 <= i && i < len(p.Files) && exists j int {{p.Files[i].Invariants[j]}} :: 0 <= j && j < len(p.Files[i].Invariants) && isTrans(p.Files[i].Invariants[j])
  ensures [none] !result ==> forall i int {{p.Files[i]}} :: 0 <= i && i < len(p.Files) ==> forall j int {{p.Files[i].Invariants[j]}} :: 0 <= j && j < len(p.Files[i].Invariants) ==> !isTrans(p.Files[i].Invariants[j])

func ReverseLink
  props C13 C17
  requires link != nil
  modifies nothing
  ensures [node] fresh(result) && result.Node == node
  ensures [same] result.Name == link.Name && result.Labels == link.Labels && result.Messages == link.Messages && result.ReqId == link.ReqId && result.Returns == link.Returns && result.Fairness == link.Fairness && result.FailedInvariants == link.FailedInvariants

func InitNodeToLink
  props C13
  requires node != nil && node.Process != nil
  modifies nothing
  ensures [node] fresh(result) && result.Node == node && result.Name == "Init"

macro chained(n) = n != nil && n.Process != nil && forall q int {{n.Inbound[q]}} :: 0 <= q && q < len(n.Inbound) ==> n.Inbound[q] != nil
macro pathStart(n, rootNode) = len(n.Inbound) == 0 || n.Process.Name == "init" || n == rootNode

func ExtractFailurePath
  props C13
  requires node != nil && forall n *Node {{n.Inbound}} :: n != nil ==> chained(n) && allocated(arr(n.Inbound)) && (forall q int {{n.Inbound[q]}} :: 0 <= q && q < len(n.Inbound) ==> n.Inbound[q].Node != nil && allocated(n.Inbound[q].Node) && allocated(n.Inbound[q]))
  modifies nothing
  loop 1
    invariant off(failurePath) == 0 && fresh(arr(failurePath))
    invariant node != nil && allocated(node) && !fresh(node)
    invariant len(failurePath) == 0 ==> node == old(node)
    invariant len(failurePath) > 0 ==> contents(failurePath)[0].Node == old(node)
    invariant forall q int {{contents(failurePath)[q]}} :: 0 <= q && q < len(failurePath) ==> contents(failurePath)[q] != nil && fresh(contents(failurePath)[q]) && contents(failurePath)[q].Node != nil && allocated(contents(failurePath)[q].Node) && !fresh(contents(failurePath)[q].Node) && !pathStart(contents(failurePath)[q].Node, rootNode) && contents(failurePath)[q].Name == contents(failurePath)[q].Node.Inbound[0].Name
    invariant forall q int {{contents(failurePath)[q]}} :: 1 <= q && q < len(failurePath) ==> contents(failurePath)[q-1].Node.Inbound[0].Node == contents(failurePath)[q].Node
    invariant len(failurePath) > 0 ==> contents(failurePath)[len(failurePath)-1].Node.Inbound[0].Node == node
  ensures [nonempty] len(result) > 0
  ensures [end] len(result) > 0 ==> result[len(result)-1].Node == old(node)
  ensures [start] len(result) > 0 ==> result[0].Name == "Init" && pathStart(result[0].Node, rootNode)
  ensures [steps] forall i int {{result[i]}} :: 1 <= i && i < len(result) ==> result[i].Node.Inbound[0].Node == result[i-1].Node && result[i].Name == result[i].Node.Inbound[0].Name

// Whether an assertion holds is decided by running its code on a copy of the state(s); here it is any function of them.
ghost transOK(*Process; *Process; *ast.Invariant; int) bool
ghost stateOK(*Process; *ast.Invariant; int) bool
ghost exprOK(*Process; *ast.Invariant) bool
extern github.com/fizzbee-io/fizzbee/modelchecker.CheckTransitionAssertion : origin, process, invariant, index
  modifies nothing
  ensures result == transOK(origin, process, invariant, index)
extern github.com/fizzbee-io/fizzbee/modelchecker.CheckAssertion : process, invariant, index, prober
  modifies nothing
  ensures result == stateOK(process, invariant, index)
extern github.com/fizzbee-io/fizzbee/modelchecker.CheckInvariant : process, invariant
  modifies nothing
  ensures result == exprOK(process, invariant)

macro listed(r, i, j) = exists q int {{contents(r[i])[q]}} :: off(r[i]) <= q && q < off(r[i]) + len(r[i]) && contents(r[i])[q] == j
macro invs(p) = p.Files[0].Invariants

func CheckTransitionInvariants
  props C13
  requires process != nil && process.Heap != nil && filesOK(process) && len(process.Files) == 1
  requires forall n *Process {{n.Heap}} :: n != nil ==> n.Heap != nil
  modifies nothing
  loop 1
    invariant fresh(results) && ($k > 0 ==> 0 in dom(results) && off(results[0]) == 0 && fresh(arr(results[0])))
    invariant forall j int {{invs(process)[j]}} :: $k > 0 && 0 <= j && j < len(invs(process)) && isTrans(invs(process)[j]) && !transOK(origin, process, invs(process)[j], j) ==> listed(results, 0, j)
    invariant forall q int {{contents(results[0])[q]}} :: $k > 0 && 0 <= q && q < len(results[0]) ==> 0 <= contents(results[0])[q] && contents(results[0])[q] < len(invs(process)) && isTrans(invs(process)[contents(results[0])[q]]) && !transOK(origin, process, invs(process)[contents(results[0])[q]], contents(results[0])[q])
  loop 2
    invariant fresh(results) && 0 in dom(results) && off(results[0]) == 0 && fresh(arr(results[0]))
    invariant forall j int {{invs(process)[j]}} :: 0 <= j && j < $k && isTrans(invs(process)[j]) && !transOK(origin, process, invs(process)[j], j) ==> listed(results, 0, j)
    invariant forall q int {{contents(results[0])[q]}} :: 0 <= q && q < len(results[0]) ==> 0 <= contents(results[0])[q] && contents(results[0])[q] < $k && contents(results[0])[q] < len(invs(process)) && isTrans(invs(process)[contents(results[0])[q]]) && !transOK(origin, process, invs(process)[contents(results[0])[q]], contents(results[0])[q])
  ensures [first] process.Parent == nil ==> result == nil
  ensures [checked] result == nil ==> process.Parent == nil || process.Heap.CachedHashCode != ""
  ensures [failed] result != nil && process.Parent != nil && process.Parent.IsYield ==> forall q int {{contents(result[0])[q]}} :: off(result[0]) <= q && q < off(result[0]) + len(result[0]) ==> 0 <= contents(result[0])[q] && contents(result[0])[q] < len(invs(process)) && isTrans(invs(process)[contents(result[0])[q]]) && !transOK(process.Parent, process, invs(process)[contents(result[0])[q]], contents(result[0])[q])
  ensures [all] result != nil && process.Parent != nil && process.Parent.IsYield ==> 0 in dom(result) && forall j int {{invs(process)[j]}} :: 0 <= j && j < len(invs(process)) && isTrans(invs(process)[j]) && !transOK(process.Parent, process, invs(process)[j], j) ==> listed(result, 0, j)

macro seeks(inv) = ite(inv.Block == nil, inv.Eventually, opsHave(inv, "eventually") || opsHave(inv, "exists"))
macro onState(inv) = inv.Block == nil || !opsHave(inv, "transition")
macro holdsAt(p, inv, j) = ite(inv.Block == nil, exprOK(p, inv), stateOK(p, inv, j))
// names for the meaning of the lists of operators and assertions, defined where the functions below start
ghost opsHave(*ast.Invariant; string) bool
ghost brokenAt(*Process; int) bool
ghost foundAt(*Process; int) bool
macro named(p) = forall j int {{invs(p)[j]}} :: 0 <= j && j < len(invs(p)) ==> (forall o string {{opsHave(invs(p)[j], o)}} :: opsHave(invs(p)[j], o) <==> opIn(invs(p)[j], o)) && (brokenAt(p, j) <==> broken(p, j)) && (foundAt(p, j) <==> found(p, j))
macro broken(p, j) = onState(invs(p)[j]) && !seeks(invs(p)[j]) && !holdsAt(p, invs(p)[j], j)
macro found(p, j) = onState(invs(p)[j]) && seeks(invs(p)[j]) && holdsAt(p, invs(p)[j], j)

func CheckInvariantsWithProber
  props C13
  timeout 30
  requires process != nil && filesOK(process) && named(process) && len(process.Files) == 1 && len(process.Witness) == 1 && len(process.Witness[0]) == len(invs(process))
  modifies elems(process.Witness[0])
  loop 1
    invariant fresh(results) && ($k > 0 ==> 0 in dom(results) && off(results[0]) == 0 && fresh(arr(results[0])))
    invariant process.Witness[0] == old(process.Witness[0])
    invariant forall j int {{invs(process)[j]}} :: $k > 0 && 0 <= j && j < len(invs(process)) && brokenAt(process, j) ==> listed(results, 0, j)
    invariant forall q int {{contents(results[0])[q]}} :: $k > 0 && 0 <= q && q < len(results[0]) ==> 0 <= contents(results[0])[q] && contents(results[0])[q] < len(invs(process)) && brokenAt(process, contents(results[0])[q])
    invariant forall j int {{process.Witness[0][j]}} :: 0 <= j && j < len(invs(process)) ==> (process.Witness[0][j] <==> old(process.Witness[0][j]) || $k > 0 && foundAt(process, j))
  loop 2
    invariant fresh(results) && 0 in dom(results) && off(results[0]) == 0 && fresh(arr(results[0]))
    invariant process.Witness[0] == old(process.Witness[0])
    invariant forall j int {{invs(process)[j]}} :: 0 <= j && j < $k && brokenAt(process, j) ==> listed(results, 0, j)
    invariant forall q int {{contents(results[0])[q]}} :: 0 <= q && q < len(results[0]) ==> 0 <= contents(results[0])[q] && contents(results[0])[q] < $k && contents(results[0])[q] < len(invs(process)) && brokenAt(process, contents(results[0])[q])
    invariant forall j int {{process.Witness[0][j]}} :: 0 <= j && j < len(invs(process)) ==> (process.Witness[0][j] <==> old(process.Witness[0][j]) || j < $k && foundAt(process, j))
  ensures [failed] forall q int {{contents(result[0])[q]}} :: off(result[0]) <= q && q < off(result[0]) + len(result[0]) ==> 0 <= contents(result[0])[q] && contents(result[0])[q] < len(invs(process)) && brokenAt(process, contents(result[0])[q])
  ensures [all] 0 in dom(result) && forall j int {{invs(process)[j]}} :: 0 <= j && j < len(invs(process)) && brokenAt(process, j) ==> listed(result, 0, j)
  ensures [witness] forall j int {{process.Witness[0][j]}} :: 0 <= j && j < len(invs(process)) ==> (process.Witness[0][j] <==> old(process.Witness[0][j]) || foundAt(process, j))

func CheckInvariants
  props C13
  requires process != nil && filesOK(process) && named(process) && len(process.Files) == 1 && len(process.Witness) == 1 && len(process.Witness[0]) == len(invs(process))
  modifies elems(process.Witness[0])
  ensures [all] 0 in dom(result) && forall j int {{invs(process)[j]}} :: 0 <= j && j < len(invs(process)) && brokenAt(process, j) ==> listed(result, 0, j)

extern slices.Delete : s, i, j
  requires 0 <= i && i <= j && j <= len(s)
  modifies elems(s)
  ensures arr(result) == arr(s) && off(result) == off(s) && len(result) == len(s) - (j - i)
  ensures forall q int {{contents(result)[q]}} :: off(s) <= q && q < off(s) + i ==> contents(result)[q] == old(contents(s)[q])
  ensures forall q int {{contents(result)[q]}} :: off(s) + i <= q && q < off(s) + len(result) ==> contents(result)[q] == old(contents(s)[q + (j - i)])
  ensures forall q int {{old(contents(s)[q])}} :: off(s) <= q && q < off(s) + i ==> contents(result)[q] == old(contents(s)[q])
  ensures forall q int {{old(contents(s)[q])}} :: off(s) + j <= q && q < off(s) + len(s) ==> contents(result)[q - (j - i)] == old(contents(s)[q])

// names: assertion j is an exists assertion; node n is a witness for it
ghost wanted(int) bool
ghost shown(*Node; int) bool
macro finv(nodes) = nodes[0].Process.Files[0].Invariants
macro mem(s, j) = exists q int {{contents(s)[q]}} :: 0 <= q && q < len(s) && contents(s)[q].InvariantIndex == j
macro open(nodes, j, k) = wanted(j) && forall i int {{nodes[i]}} :: 0 <= i && i < k ==> !shown(nodes[i], j)
macro elemsOK(s, nodes) = forall q int {{contents(s)[q]}} :: 0 <= q && q < len(s) ==> contents(s)[q] != nil && fresh(contents(s)[q]) && contents(s)[q].FileIndex == 0 && 0 <= contents(s)[q].InvariantIndex && contents(s)[q].InvariantIndex < len(finv(nodes)) && wanted(contents(s)[q].InvariantIndex)
macro ordered(s) = forall q int, r int {{contents(s)[q], contents(s)[r]}} :: 0 <= q && q < r && r < len(s) ==> contents(s)[q].InvariantIndex < contents(s)[r].InvariantIndex

func CheckSimpleExistsWitness
  props C13
  timeout 8
  requires len(nodes) > 0 && nodes[0].Process != nil && len(nodes[0].Process.Files) == 1 && filesOK(nodes[0].Process) && nodes[0].Process.Files[0] != nil
  requires forall i int {{nodes[i]}} :: 0 <= i && i < len(nodes) ==> nodes[i] != nil && nodes[i].Process != nil && len(nodes[i].Process.Witness) == 1 && len(nodes[i].Process.Witness[0]) == len(finv(nodes))
  requires forall j int {{finv(nodes)[j]}} :: 0 <= j && j < len(finv(nodes)) ==> allocated(finv(nodes)[j]) && (wanted(j) <==> isExists(finv(nodes)[j]))
  requires forall i int {{nodes[i]}} :: 0 <= i && i < len(nodes) ==> forall j int {{shown(nodes[i], j)}} :: shown(nodes[i], j) <==> (nodes[i].Process.IsYield || yieldName(nodes[i].Process.Name)) && nodes[i].Process.Witness[0][j]
  modifies nothing
  loop 1
    invariant off(existsInvariantPositions) == 0 && fresh(arr(existsInvariantPositions))
    invariant elemsOK(existsInvariantPositions, nodes)
    invariant ordered(existsInvariantPositions)
    invariant $k == 0 ==> len(existsInvariantPositions) == 0
    invariant $k > 0 ==> forall j int {{wanted(j)}} :: 0 <= j && j < len(finv(nodes)) && wanted(j) ==> mem(existsInvariantPositions, j)
  loop 2
    invariant off(existsInvariantPositions) == 0 && fresh(arr(existsInvariantPositions))
    invariant elemsOK(existsInvariantPositions, nodes)
    invariant ordered(existsInvariantPositions)
    invariant forall q int {{contents(existsInvariantPositions)[q]}} :: 0 <= q && q < len(existsInvariantPositions) ==> contents(existsInvariantPositions)[q].InvariantIndex < $k
    invariant forall j int {{wanted(j)}} :: 0 <= j && j < $k && wanted(j) ==> mem(existsInvariantPositions, j)
  loop 3
    invariant off(existsInvariantPositions) == 0 && fresh(arr(existsInvariantPositions))
    invariant elemsOK(existsInvariantPositions, nodes)
    invariant ordered(existsInvariantPositions)
    invariant forall q int {{contents(existsInvariantPositions)[q]}} :: 0 <= q && q < len(existsInvariantPositions) ==> open(nodes, contents(existsInvariantPositions)[q].InvariantIndex, $k)
    invariant forall j int {{wanted(j)}} :: 0 <= j && j < len(finv(nodes)) && open(nodes, j, $k) ==> mem(existsInvariantPositions, j)
  loop 4
    invariant off(satisfiedInvariants) == 0 && fresh(arr(satisfiedInvariants))
    invariant forall q int {{contents(satisfiedInvariants)[q]}} :: 0 <= q && q < len(satisfiedInvariants) ==> 0 <= contents(satisfiedInvariants)[q] && contents(satisfiedInvariants)[q] < $k && contents(satisfiedInvariants)[q] < len(existsInvariantPositions) && shown(node, contents(existsInvariantPositions)[contents(satisfiedInvariants)[q]].InvariantIndex)
    invariant forall q int, r int {{contents(satisfiedInvariants)[q], contents(satisfiedInvariants)[r]}} :: 0 <= q && q < r && r < len(satisfiedInvariants) ==> contents(satisfiedInvariants)[q] < contents(satisfiedInvariants)[r]
    invariant forall e int {{contents(existsInvariantPositions)[e]}} :: 0 <= e && e < $k && shown(node, contents(existsInvariantPositions)[e].InvariantIndex) ==> exists q int {{contents(satisfiedInvariants)[q]}} :: 0 <= q && q < len(satisfiedInvariants) && contents(satisfiedInvariants)[q] == e
  loop 5
    invariant off(existsInvariantPositions) == 0 && fresh(arr(existsInvariantPositions))
    invariant elemsOK(existsInvariantPositions, nodes)
    invariant ordered(existsInvariantPositions)
    invariant -1 <= k && k < len(satisfiedInvariants)
    invariant forall q int {{contents(satisfiedInvariants)[q]}} :: 0 <= q && q <= k ==> 0 <= contents(satisfiedInvariants)[q] && contents(satisfiedInvariants)[q] < len(existsInvariantPositions) && shown(node, contents(existsInvariantPositions)[contents(satisfiedInvariants)[q]].InvariantIndex)
    invariant forall e int {{contents(existsInvariantPositions)[e]}} :: 0 <= e && e < len(existsInvariantPositions) && shown(node, contents(existsInvariantPositions)[e].InvariantIndex) ==> exists q int {{contents(satisfiedInvariants)[q]}} :: 0 <= q && q <= k && contents(satisfiedInvariants)[q] == e
    invariant forall j int {{wanted(j)}} :: 0 <= j && j < len(finv(nodes)) && open(nodes, j, $k3) && !shown(node, j) ==> mem(existsInvariantPositions, j)
    invariant forall q int {{contents(existsInvariantPositions)[q]}} :: 0 <= q && q < len(existsInvariantPositions) ==> open(nodes, contents(existsInvariantPositions)[q].InvariantIndex, $k3)
  ensures [missing] forall q int {{contents(result)[q]}} :: 0 <= q && q < len(result) ==> contents(result)[q].FileIndex == 0 && 0 <= contents(result)[q].InvariantIndex && contents(result)[q].InvariantIndex < len(finv(nodes)) && open(nodes, contents(result)[q].InvariantIndex, len(nodes))
  ensures [all] forall j int {{wanted(j)}} :: 0 <= j && j < len(finv(nodes)) && open(nodes, j, len(nodes)) ==> mem(result, j)
