package github.com/fizzbee-io/fizzbee/modelchecker

// C16: which steps a guided trace lets the search take.

macro gt(n) = n.Process.guidedTrace
macro guided(n) = len(n.Process.guidedTrace.LinkNames) > 0 || n.Process.guidedTrace.ExtendDepth != 0
macro via(n) = n.Inbound[0].Name
macro done(n) = n.Process.guidedTrace.currentIndex >= len(n.Process.guidedTrace.LinkNames)
macro fromYield(n) = n.Inbound[0].Node != nil && n.Inbound[0].Node.Process != nil && (n.Inbound[0].Node.Process.IsYield || yieldName(n.Inbound[0].Node.Process.Name))
macro free(n) = !guided(n) || len(n.Inbound) == 0 || hasPrefix(via(n), "thread-")

func (*GuidedTrace).GetNextLinkName
  props C16
  requires t != nil && t.currentIndex >= 0
  modifies nothing
  ensures [next] t.currentIndex < len(t.LinkNames) ==> result1 == nil && result0 == t.LinkNames[t.currentIndex]
  ensures [end] t.currentIndex >= len(t.LinkNames) ==> result1 != nil

func (*GuidedTrace).Advance
  props C16
  requires t != nil && t.currentIndex < 1000000000
  modifies t.currentIndex
  ensures [advance] t.currentIndex == old(t.currentIndex) + 1

func (*GuidedTrace).IsExhausted
  props C16
  requires t != nil
  modifies nothing
  ensures [exhausted] result <==> t.currentIndex >= len(t.LinkNames)

func (*GuidedTrace).GetCurrentIndex
  props C16
  requires t != nil
  modifies nothing
  ensures [index] result == t.currentIndex

func (*Processor).ShouldScheduleNode
  props C16
  requires p != nil && node != nil && node.Process != nil && node.Process.guidedTrace.currentIndex >= 0 && node.Process.guidedTrace.currentIndex < 1000000000 && node.Process.guidedTrace.extendedCount < 1000000000
  requires guided(node) ==> p.guidedTrace != nil && p.guidedTrace.currentIndex < 1000000000
  requires forall q int {{node.Inbound[q]}} :: 0 <= q && q < len(node.Inbound) ==> node.Inbound[q] != nil
  modifies node.Process.guidedTrace.currentIndex, node.Process.guidedTrace.extendedCount, p.guidedTrace.currentIndex
  ensures [free] old(free(node)) ==> result
  ensures [freeIndex] old(free(node)) ==> node.Process.guidedTrace.currentIndex == old(node.Process.guidedTrace.currentIndex) && node.Process.guidedTrace.extendedCount == old(node.Process.guidedTrace.extendedCount)
  ensures [follow] old(!free(node) && !done(node)) ==> (result <==> old(via(node) == gt(node).LinkNames[gt(node).currentIndex]))
  ensures [progress] old(!free(node) && !done(node)) ==> node.Process.guidedTrace.currentIndex == old(node.Process.guidedTrace.currentIndex) + ite(result, 1, 0)
  ensures [furthest] old(!free(node) && !done(node)) && result ==> p.guidedTrace.currentIndex == ite(old(p.guidedTrace.currentIndex) >= node.Process.guidedTrace.currentIndex, old(p.guidedTrace.currentIndex), node.Process.guidedTrace.currentIndex)
  ensures [stop] old(!free(node) && done(node) && gt(node).ExtendDepth == 0) ==> !result
  ensures [extend] old(!free(node) && done(node) && gt(node).ExtendDepth != 0) ==> (result <==> old(gt(node).extendedCount < gt(node).ExtendDepth || !fromYield(node)))
  ensures [count] old(!free(node) && done(node) && gt(node).ExtendDepth != 0) && result ==> node.Process.guidedTrace.extendedCount == old(node.Process.guidedTrace.extendedCount) + 1

// the lines of a trace: empty lines and comments are left out, the others kept in order
ghost trim(string) string
extern strings.TrimSpace : s
  modifies nothing
  ensures result == trim(s)
ghost lineAt(any; int) string
ghost lineCount(any) int
ghostvar linePos(any) int
extern (*bufio.Scanner).Scan : s
  modifies linePos(iface(s))
  ensures result <==> old(linePos(iface(s))) < lineCount(iface(s))
  ensures linePos(iface(s)) == old(linePos(iface(s))) + ite(result, 1, 0)
extern (*bufio.Scanner).Text : s
  modifies nothing
  ensures result == lineAt(iface(s), linePos(iface(s)) - 1)
ghost scanErr(any) error
extern (*bufio.Scanner).Err : s
  modifies nothing
  ensures result == scanErr(iface(s))
macro kept(s, i) = trim(lineAt(iface(s), i)) != "" && !hasPrefix(trim(lineAt(iface(s), i)), "#")
ghost rank(any; int) int
macro counts(s) = rank(iface(s), 0) == 0 && forall i int {{lineAt(iface(s), i)}} :: i >= 0 ==> rank(iface(s), i + 1) == rank(iface(s), i) + ite(kept(s, i), 1, 0)

func parseTrace
  props C16
  requires scanner != nil && linePos(iface(scanner)) == 0 && lineCount(iface(scanner)) >= 0 && lineCount(iface(scanner)) < 1000000000 && counts(scanner)
  modifies linePos(iface(scanner))
  loop 1
    invariant linePos(iface(scanner)) >= 0 && linePos(iface(scanner)) <= lineCount(iface(scanner))
    invariant len(linkNames) == rank(iface(scanner), linePos(iface(scanner)))
    invariant linkNames == nil || (off(linkNames) == 0 && fresh(arr(linkNames)))
    invariant forall i int {{lineAt(iface(scanner), i)}} :: 0 <= i && i < linePos(iface(scanner)) && kept(scanner, i) ==> rank(iface(scanner), i) >= 0 && rank(iface(scanner), i) < len(linkNames) && contents(linkNames)[rank(iface(scanner), i)] == trim(lineAt(iface(scanner), i))
  ensures [error] scanErr(iface(scanner)) != nil ==> result1 != nil
  ensures [empty] rank(iface(scanner), lineCount(iface(scanner))) == 0 ==> result1 != nil
  ensures [ok] scanErr(iface(scanner)) == nil && rank(iface(scanner), lineCount(iface(scanner))) > 0 ==> result1 == nil
  ensures [length] result1 == nil ==> len(result0) == rank(iface(scanner), lineCount(iface(scanner)))
  ensures [lines] result1 == nil ==> forall i int {{lineAt(iface(scanner), i)}} :: 0 <= i && i < lineCount(iface(scanner)) && kept(scanner, i) ==> result0[rank(iface(scanner), i)] == trim(lineAt(iface(scanner), i))
