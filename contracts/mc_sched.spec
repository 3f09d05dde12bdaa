package github.com/fizzbee-io/fizzbee/modelchecker

// C11: what is scheduled at a yield point.

func (*Process).GetThreads
  props C11
  requires p != nil
  modifies nothing
  loop 1
    invariant off(activeThreads) == 0 && fresh(arr(activeThreads)) && len(activeThreads) <= $k && p.Threads == old(p.Threads)
    invariant arr(activeThreads) != arr(p.Threads)
    invariant forall i int {{p.Threads[i]}} :: 0 <= i && i < len(p.Threads) ==> p.Threads[i] == old(p.Threads[i])
    invariant forall q int {{contents(activeThreads)[q]}} :: 0 <= q && q < len(activeThreads) ==> contents(activeThreads)[q] != nil && exists i int {{p.Threads[i]}} :: 0 <= i && i < $k && p.Threads[i] == contents(activeThreads)[q]
    invariant forall i int {{p.Threads[i]}} :: 0 <= i && i < $k && p.Threads[i] != nil ==> exists q int {{contents(activeThreads)[q]}} :: 0 <= q && q < len(activeThreads) && contents(activeThreads)[q] == p.Threads[i]
    invariant len(activeThreads) == $k <==> (forall i int {{p.Threads[i]}} :: 0 <= i && i < $k ==> p.Threads[i] != nil)
  ensures [shape] off(result) == 0 && fresh(arr(result)) && len(result) <= len(p.Threads)
  ensures [live] forall q int {{contents(result)[q]}} :: 0 <= q && q < len(result) ==> contents(result)[q] != nil && exists i int {{p.Threads[i]}} :: 0 <= i && i < len(p.Threads) && p.Threads[i] == contents(result)[q]
  ensures [all] forall i int {{p.Threads[i]}} :: 0 <= i && i < len(p.Threads) && p.Threads[i] != nil ==> exists q int {{contents(result)[q]}} :: 0 <= q && q < len(result) && contents(result)[q] == p.Threads[i]
  ensures [full] len(result) == len(p.Threads) <==> (forall i int {{p.Threads[i]}} :: 0 <= i && i < len(p.Threads) ==> p.Threads[i] != nil)

func (*Process).GetThreadsCount
  props C11
  modifies nothing
  ensures [nil] p == nil ==> result == 0
  ensures [range] p != nil ==> 0 <= result && result <= len(p.Threads)
  ensures [none] p != nil && result == 0 ==> forall i int {{p.Threads[i]}} :: 0 <= i && i < len(p.Threads) ==> p.Threads[i] == nil
  ensures [full] p != nil ==> (result == len(p.Threads) <==> (forall i int {{p.Threads[i]}} :: 0 <= i && i < len(p.Threads) ==> p.Threads[i] != nil))

extern github.com/fizzbee-io/fizzbee/modelchecker.NewThread : process, files, fileIndex, action
  modifies nothing
  ensures fresh(result) && result.Process == process

func (*Process).NewThread
  props C11
  requires p != nil
  modifies p.Threads, p.Current, elems(p.Threads)
  loop 1
    invariant p.Threads == old(p.Threads) && p.Current == old(p.Current)
    invariant forall i int {{p.Threads[i]}} :: 0 <= i && i < $k ==> p.Threads[i] != nil
  ensures [cur] 0 <= p.Current && p.Current < len(p.Threads) && p.Threads[p.Current] == result && fresh(result)
  ensures [slot] p.Current < old(len(p.Threads)) ==> len(p.Threads) == old(len(p.Threads)) && forall i int {{p.Threads[i]}} :: i == p.Current ==> old(p.Threads[i]) == nil
  ensures [append] p.Current >= old(len(p.Threads)) ==> len(p.Threads) == old(len(p.Threads)) + 1
  ensures [others] forall i int {{p.Threads[i]}} :: 0 <= i && i < old(len(p.Threads)) && i != p.Current ==> p.Threads[i] == old(p.Threads[i])

func (*Process).removeThread
  props C11
  requires p != nil && (len(p.Threads) > 0 ==> 0 <= threadIndex && threadIndex < len(p.Threads))
  modifies p.Current, elems(p.Threads)
  loop 1
    invariant forall i int {{p.Threads[i]}} :: 0 <= i && i < $k ==> p.Threads[i] == nil
    invariant p.Current == old(p.Current)
  ensures [gone] len(p.Threads) > 0 ==> p.Threads[threadIndex] == nil
  ensures [others] forall i int {{p.Threads[i]}} :: 0 <= i && i < len(p.Threads) && i != threadIndex ==> p.Threads[i] == old(p.Threads[i])
  ensures [cur] (exists i int {{p.Threads[i]}} :: 0 <= i && i < len(p.Threads) && p.Threads[i] != nil) ==> 0 <= p.Current && p.Current < len(p.Threads) && p.Threads[p.Current] != nil
  ensures [none] (forall i int {{p.Threads[i]}} :: 0 <= i && i < len(p.Threads) ==> p.Threads[i] == nil) ==> p.Current == old(p.Current)

extern github.com/fizzbee-io/fizzbee/modelchecker.captureStackTrace
  modifies nothing
ghost refShort(*lib.Role) string
extern (*github.com/fizzbee-io/fizzbee/lib.Role).RefStringShort : r
  modifies nothing
  ensures result == refShort(r)

func (*Node).ForkForAlternatePaths
  props C11
  requires n != nil && n.Process != nil && process != nil
  modifies nothing
  ensures [depth] fresh(result) && result.actionDepth == n.actionDepth && result.Process == process
  ensures [link] len(result.Inbound) == 1 && fresh(result.Inbound[0]) && result.Inbound[0].Node == n && result.Inbound[0].Name == name && len(result.Outbound) == 0

macro isSome(m, k) = m != nil && k in dom(m) && m[k] != nil
macro maxed(p, s, name, counted) = isSome(p.config.ActionOptions, name) && p.config.ActionOptions[name].MaxActions > 0 && countOf(s, counted) >= p.config.ActionOptions[name].MaxActions
macro countOf(s, k) = ite(s.Stats.Counts != nil && k in dom(s.Stats.Counts), s.Stats.Counts[k], 0)
macro nameOf(action, role) = ite(role == nil, action.Name, refShort(role) + "." + action.Name)
extern strings.Split : s, sep
  modifies nothing
extern (*fizz/proto.Options).GetMaxConcurrentActions : x
  modifies nothing
  ensures x != nil ==> result == x.MaxConcurrentActions
macro ofRole(k, role, action) = hasPrefix(k, role.Name + "#") && hasSuffix(k, "." + action.Name)
macro limited(p, name) = isSome(p.config.ActionOptions, name)
macro roleKey(role, action) = role.Name + "." + action.Name
macro noConc(p, name) = isSome(p.config.ActionOptions, name) ==> p.config.ActionOptions[name].MaxConcurrentActions <= 0
ghost hasPrefix(string; string) bool
extern strings.HasPrefix : s, prefix
  modifies nothing
  ensures result == hasPrefix(s, prefix)

func (*Processor).ExceedsActionCountLimits
  props C11
  requires p != nil && p.config != nil && action != nil && statProcess != nil && statProcess.Stats != nil && (statProcess.Stats.Counts != nil ==> allocated(statProcess.Stats.Counts))
  requires forall i int {{statProcess.Threads[i]}} :: 0 <= i && i < len(statProcess.Threads) && statProcess.Threads[i] != nil ==> stackOK(statProcess.Threads[i]) && (forall q int {{statProcess.Threads[i].Stack.Stack.s[q]}} :: 0 <= q && q < len(statProcess.Threads[i].Stack.Stack.s) ==> statProcess.Threads[i].Stack.Stack.s[q] != nil)
  modifies nothing
  loop 1
    invariant fresh(concurrentStats) && concurrentStats != statProcess.Stats.Counts
    invariant forall k string {{k in dom(statProcess.Stats.Counts)}} :: (k in dom(statProcess.Stats.Counts) <==> old(k in dom(statProcess.Stats.Counts))) && statProcess.Stats.Counts[k] == old(statProcess.Stats.Counts[k])
  ensures [self] maxed(p, statProcess, nameOf(action, role), nameOf(action, role)) ==> result
  ensures [instance] role != nil && maxed(p, statProcess, role.Name + "#." + action.Name, nameOf(action, role)) ==> result
  ensures [free] !isSome(p.config.ActionOptions, nameOf(action, role)) && (role == nil || !isSome(p.config.ActionOptions, role.Name + "#." + action.Name) && !isSome(p.config.ActionOptions, role.Name + "." + action.Name)) ==> !result
  loop 2
    invariant (forall k string {{k in dom(statProcess.Stats.Counts)}} :: k in $seen && ofRole(k, role, action) ==> statProcess.Stats.Counts[k] == 0) ==> actionCount == 0
    invariant (forall k string {{k in dom(statProcess.Stats.Counts)}} :: k in dom(statProcess.Stats.Counts) ==> statProcess.Stats.Counts[k] >= 0) ==> actionCount >= 0 && (forall k string {{k in dom(statProcess.Stats.Counts)}} :: k in $seen && ofRole(k, role, action) ==> actionCount >= statProcess.Stats.Counts[k])
    invariant forall k string {{k in $seen}} :: k in $seen ==> statProcess.Stats.Counts != nil && k in dom(statProcess.Stats.Counts)
  ensures [rolenone] role != nil && !limited(p, nameOf(action, role)) && !limited(p, role.Name + "#." + action.Name) && noConc(p, roleKey(role, action)) && (forall k string {{k in dom(statProcess.Stats.Counts)}} :: statProcess.Stats.Counts != nil && k in dom(statProcess.Stats.Counts) && ofRole(k, role, action) ==> statProcess.Stats.Counts[k] == 0) ==> !result
  ensures [rolesome] role != nil && limited(p, roleKey(role, action)) && p.config.ActionOptions[roleKey(role, action)].MaxActions > 0 && statProcess.Stats.Counts != nil && (forall k string {{k in dom(statProcess.Stats.Counts)}} :: k in dom(statProcess.Stats.Counts) ==> statProcess.Stats.Counts[k] >= 0) && (exists k string {{k in dom(statProcess.Stats.Counts)}} :: k in dom(statProcess.Stats.Counts) && ofRole(k, role, action) && statProcess.Stats.Counts[k] >= p.config.ActionOptions[roleKey(role, action)].MaxActions) ==> result
