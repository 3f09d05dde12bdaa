package github.com/fizzbee-io/fizzbee/modelchecker

// C15: liveness under fairness.

macro isChoice(l) = hasPrefix(l.Name, "Any:")
macro isThr(l) = hasPrefix(l.Name, "thread-")
macro curT(n) = n.Process.Threads[n.Process.Current]
macro linkT(n, l) = ite(isChoice(l), curT(n), n.Process.Threads[l.ReqId])
macro thrOK(n, l) = n.Process != nil && ite(isChoice(l), 0 <= n.Process.Current && n.Process.Current < len(n.Process.Threads), 0 <= l.ReqId && l.ReqId < len(n.Process.Threads)) && stackOK(linkT(n, l)) && topFrame(linkT(n, l)) != nil
macro posName(n, l) = ite(topFrame(linkT(n, l)).obj == nil, l.Name + "|" + topFrame(linkT(n, l)).pc, l.Name + "|" + topFrame(linkT(n, l)).pc + "|" + refShort(topFrame(linkT(n, l)).obj))
macro fairName(n, l) = ite(isChoice(l) || isThr(l), posName(n, l), l.Name)
macro fairLevel(l) = ite(isChoice(l) || isThr(l), 3, l.Fairness)

func isCrashLinkName
  props C15
  modifies nothing
  ensures [crash] result <==> linkName == "crash" || hasPrefix(linkName, "crash-role")

// names, defined where the functions below start: the name of the fair step a link belongs to and its level
ghost stepName(*Node; *Link) string
ghost stepLevel(*Link) int
func fairnessLinkName
  props C15
  requires node != nil && outLink != nil && (isChoice(outLink) || isThr(outLink) ==> thrOK(node, outLink))
  requires stepName(node, outLink) == fairName(node, outLink) && stepLevel(outLink) == fairLevel(outLink)
  modifies nothing
  ensures [name] result0 == stepName(node, outLink)
  ensures [level] result1 == stepLevel(outLink)
  ensures [choice] result2 <==> isChoice(outLink)

// link q out of the node at position i of the loop is offered there with this name and level / is the next one on the loop
ghost offered(int; string; int) bool
ghost chosen(int; string; int) bool
ghost counted(int) bool
macro nextOf(path, i) = path[ite(i + 1 == len(path), 0, i + 1)]
macro onLoop(path, i, q) = path[i].Node.Outbound[q] == nextOf(path, i) && path[i].Node.Outbound[q].Node == nextOf(path, i).Node
macro choiceNode(n) = !yieldName(n.Process.Name) && len(n.Outbound) > 0 && isChoice(n.Outbound[0]) && n.Outbound[0].ChoiceFairness != 0 && n.Outbound[0].ChoiceFairness != 1
macro graphOK() = forall n *Node {{n.Outbound}} :: n != nil && allocated(n) ==> n.Process != nil && forall q int {{n.Outbound[q]}} :: 0 <= q && q < len(n.Outbound) ==> n.Outbound[q] != nil && allocated(n.Outbound[q]) && n.Outbound[q].Node != nil && allocated(n.Outbound[q].Node) && (isChoice(n.Outbound[q]) || isThr(n.Outbound[q]) ==> thrOK(n, n.Outbound[q]))
macro wayOK(path) = forall i int {{path[i]}} :: 0 <= i && i < len(path) ==> path[i] != nil && allocated(path[i]) && path[i].Node != nil && allocated(path[i].Node)
macro stepsNamed() = forall n *Node, l *Link {{stepName(n, l)}} :: n != nil && l != nil ==> stepName(n, l) == fairName(n, l) && stepLevel(l) == fairLevel(l)
macro hits(path, i, q, k, lv) = stepName(path[i].Node, path[i].Node.Outbound[q]) == k && stepLevel(path[i].Node.Outbound[q]) == lv
macro loopNamed(path) = forall i int {{path[i]}} :: 0 <= i && i < len(path) ==> (counted(i) <==> yieldName(path[i].Node.Process.Name) || choiceNode(path[i].Node)) && (forall k string, lv int {{offered(i, k, lv)}} :: offered(i, k, lv) ==> counted(i) && exists q int {{path[i].Node.Outbound[q]}} :: 0 <= q && q < len(path[i].Node.Outbound) && hits(path, i, q, k, lv)) && (forall q int {{path[i].Node.Outbound[q]}} :: 0 <= q && q < len(path[i].Node.Outbound) && counted(i) && onLoop(path, i, q) ==> chosen(i, stepName(path[i].Node, path[i].Node.Outbound[q]), stepLevel(path[i].Node.Outbound[q])))

extern (*github.com/fizzbee-io/fizzbee/modelchecker.Node).String : n
  modifies nothing

extern github.com/fizzbee-io/fizzbee/modelchecker.findMissingLinks : path, s, w
  modifies nothing

func isFairCycle
  props C15
  timeout 8
  requires !debugLog && len(path) > 0 && wayOK(path) && graphOK() && stepsNamed() && loopNamed(path)
  modifies nothing
  loop 2
    invariant fresh(weakFairLinksOutOfChain) && fresh(strongFairLinksInChain) && fresh(strongFairLinksOutOfChain) && fresh(weakFairLinksInChain)
    invariant weakFairLinksOutOfChain != strongFairLinksInChain && weakFairLinksOutOfChain != strongFairLinksOutOfChain && weakFairLinksOutOfChain != weakFairLinksInChain
    invariant forall k string {{k in dom(strongFairLinksInChain)}} :: k in dom(strongFairLinksInChain) ==> exists j int {{chosen(j, k, 3)}} :: 0 <= j && j < $k && chosen(j, k, 3)
    invariant forall i int, k string {{offered(i, k, 3)}} :: 0 <= i && i < $k && offered(i, k, 3) ==> k in dom(strongFairLinksInChain) || k in dom(strongFairLinksOutOfChain)
  loop 3
    invariant forall k string {{k in dom(strongFairLinksInChain)}} :: k in dom(strongFairLinksInChain) ==> exists j int {{chosen(j, k, 3)}} :: 0 <= j && j <= i && chosen(j, k, 3)
    invariant forall p int, k string {{offered(p, k, 3)}} :: 0 <= p && p < i && offered(p, k, 3) ==> k in dom(strongFairLinksInChain) || k in dom(strongFairLinksOutOfChain)
    invariant forall q int {{stepName(node, node.Outbound[q])}} :: 0 <= q && q < $k && stepLevel(node.Outbound[q]) == 3 ==> stepName(node, node.Outbound[q]) in dom(strongFairLinksInChain) || stepName(node, node.Outbound[q]) in dom(strongFairLinksOutOfChain)
  ensures [strong] result0 ==> forall i int, k string {{offered(i, k, 3)}} :: 0 <= i && i < len(path) && offered(i, k, 3) ==> exists j int {{chosen(j, k, 3)}} :: 0 <= j && j < len(path) && chosen(j, k, 3)

// the path from the initial state to the state a nondeterministic check fails at

func pathToInit
  props C15
  requires closestDeadNode != nil && allocated(closestDeadNode) && len(nodes) > 0 && forall n *Node {{n.Inbound}} :: n != nil ==> chained(n) && allocated(arr(n.Inbound)) && (forall q int {{n.Inbound[q]}} :: 0 <= q && q < len(n.Inbound) ==> n.Inbound[q].Node != nil && allocated(n.Inbound[q].Node) && allocated(n.Inbound[q]))
  modifies nothing
  loop 1
    invariant off(failurePath) == 0 && fresh(arr(failurePath))
    invariant node != nil && allocated(node) && !fresh(node)
    invariant len(failurePath) == 0 ==> node == closestDeadNode
    invariant len(failurePath) > 0 ==> contents(failurePath)[0].Node == closestDeadNode
    invariant forall q int {{contents(failurePath)[q]}} :: 0 <= q && q < len(failurePath) ==> contents(failurePath)[q] != nil && fresh(contents(failurePath)[q]) && contents(failurePath)[q].Node != nil && allocated(contents(failurePath)[q].Node) && !fresh(contents(failurePath)[q].Node) && !pathStart(contents(failurePath)[q].Node, nodes[0]) && contents(failurePath)[q].Name == contents(failurePath)[q].Node.Inbound[0].Name
    invariant forall q int {{contents(failurePath)[q]}} :: 1 <= q && q < len(failurePath) ==> contents(failurePath)[q-1].Node.Inbound[0].Node == contents(failurePath)[q].Node
    invariant len(failurePath) > 0 ==> contents(failurePath)[len(failurePath)-1].Node.Inbound[0].Node == node
  ensures [nonempty] len(result) > 0
  ensures [end] len(result) > 0 ==> result[len(result)-1].Node == closestDeadNode
  ensures [start] len(result) > 0 ==> result[0].Name == "Init" && pathStart(result[0].Node, nodes[0])
  ensures [steps] forall i int {{result[i]}} :: 1 <= i && i < len(result) ==> result[i].Node.Inbound[0].Node == result[i-1].Node && result[i].Name == result[i].Node.Inbound[0].Name
