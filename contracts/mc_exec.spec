package github.com/fizzbee-io/fizzbee/modelchecker

// C10: how a thread moves from statement to statement.

func ContainsInt
  props C10
  modifies nothing
  loop 1
    invariant forall j int {{skipstmts[j]}} :: 0 <= j && j < $k ==> skipstmts[j] != i
  ensures [in] result <==> exists j int {{skipstmts[j]}} :: 0 <= j && j < len(skipstmts) && skipstmts[j] == i

func removeElement
  props C10
  modifies nothing
  ensures [out] index < 0 || index >= len(slice) ==> result == slice
  ensures [len] 0 <= index && index < len(slice) ==> len(result) == len(slice) - 1 && (len(result) > 0 ==> arr(result) != arr(slice))
  ensures [before] forall j int {{result[j]}} :: 0 <= index && index < len(slice) && 0 <= j && j < index ==> result[j] == old(slice[j])
  ensures [after] forall j int {{result[j]}} :: 0 <= index && index < len(slice) && index <= j && j < len(result) ==> result[j] == old(slice[j+1])
  ensures [same] forall j int {{slice[j]}} :: 0 <= j && j < len(slice) ==> slice[j] == old(slice[j])

macro stackOK(t) = t != nil && t.Stack != nil && t.Stack.Stack != nil && len(t.Stack.Stack.s) > 0 && stackInv(t.Stack.Stack)
macro topFrame(t) = *t.Stack.Stack.peak

func (*Thread).currentFrame
  props C10
  requires stackOK(t)
  modifies nothing
  ensures [top] result == topFrame(t)

func (*Thread).currentPc
  props C10
  requires stackOK(t) && topFrame(t) != nil
  modifies nothing
  ensures [pc] result == topFrame(t).pc

func (*Thread).InsertNewScope
  props C10
  requires stackOK(t) && topFrame(t) != nil
  modifies topFrame(t).scope
  ensures [cur] topFrame(t).scope == result && fresh(result)
  ensures [parent] result.parent == old(topFrame(t).scope)
  ensures [inherit] result.parent != nil ==> result.flow == result.parent.flow && result.vars == result.parent.vars
  ensures [root] result.parent == nil ==> fresh(result.vars)
  ensures [none] len(result.skipstmts) == 0 && len(result.loopRange) == 0 && len(result.loopVars) == 0

func (*Thread).ExitScope
  props C10
  requires stackOK(t) && topFrame(t) != nil
  modifies topFrame(t).scope
  ensures [nil] old(topFrame(t).scope) == nil ==> result == nil && topFrame(t).scope == nil
  ensures [pop] old(topFrame(t).scope) != nil ==> result == old(topFrame(t).scope) && topFrame(t).scope == old(topFrame(t).scope.parent)

func (*Scope).SetFlow
  props C10
  requires s != nil
  modifies s.flow
  ensures [keep] flow == 0 ==> s.flow == old(s.flow)
  ensures [set] flow != 0 ==> s.flow == flow

macro flowSerial(s) = s.flow == 1
macro flowParallel(s) = s.flow == 2
macro flowAtomic(s) = s.flow == 3
macro flowOneof(s) = s.flow == 4

// ---- branching ----
macro curFrame(p) = topFrame(p.Threads[p.Current])
macro procOK(p) = p != nil && 0 <= p.Current && p.Current < len(p.Threads) && stackOK(p.Threads[p.Current]) && curFrame(p) != nil && curFrame(p).scope != nil
// the memory a branch writes to: its process, its current frame and scope
macro ownNew(r) = fresh(r) && fresh(curFrame(r)) && fresh(curFrame(r).scope)
macro branchOK(r) = procOK(r) && allocated(r) && allocated(r.Threads[r.Current]) && allocated(arr(r.Threads)) && allocated(curFrame(r)) && allocated(curFrame(r).scope) && allocated(arr(curFrame(r).scope.skipstmts))

ghost fmt1(string; error) string
ghost fmt2(string; error; error) string
extern fmt.Sprintf : format, a
  modifies nothing
  ensures len(a) == 1 ==> result == fmt1(format, a[0])
  ensures len(a) == 2 ==> result == fmt2(format, a[0], a[1])

// A fork is a complete copy (C07); here: its current thread is at the same place with its own frame and scope.
macro forkShape(p, r) = r != nil && ownNew(r) && procOK(r) && r.Current == p.Current && fresh(r.Threads[r.Current]) && fresh(r.Threads[r.Current].Stack) && fresh(r.Threads[r.Current].Stack.Stack) && fresh(arr(r.Threads))
macro forkPlace(p, r) = curFrame(r).pc == curFrame(p).pc && curFrame(r).scope.flow == curFrame(p).scope.flow
macro forkSkip(p, r) = len(curFrame(r).scope.skipstmts) == len(curFrame(p).scope.skipstmts) && (len(curFrame(p).scope.skipstmts) > 0 ==> fresh(arr(curFrame(r).scope.skipstmts))) && (len(curFrame(p).scope.skipstmts) == 0 ==> fresh(arr(curFrame(r).scope.skipstmts)) || arr(curFrame(r).scope.skipstmts) == nil || cap(curFrame(r).scope.skipstmts) == 0)
macro forkSkipped(p, r) = forall j int {{curFrame(r).scope.skipstmts[j]}} :: 0 <= j && j < len(curFrame(p).scope.skipstmts) ==> curFrame(r).scope.skipstmts[j] == curFrame(p).scope.skipstmts[j]
macro forkLoop(p, r) = len(curFrame(r).scope.loopRange) == len(curFrame(p).scope.loopRange) && fresh(curFrame(r).scope.vars)
macro childrenKept(p) = arr(p.Children) == old(arr(p.Children)) || fresh(arr(p.Children))

extern (*github.com/fizzbee-io/fizzbee/modelchecker.Process).forkWithValue : p, x
  requires procOK(p)
  modifies p.Children, elems(p.Children)
  ensures forkShape(p, result0)
  ensures childrenKept(p)
  ensures forkPlace(p, result0)
  ensures forkSkip(p, result0)
  ensures forkSkipped(p, result0)
  ensures forkLoop(p, result0)

func (*Process).Fork
  props C10
  requires procOK(p)
  modifies p.Children, elems(p.Children)
  ensures [shape] forkShape(p, result)
  ensures [children] childrenKept(p)
  ensures [place] forkPlace(p, result)
  ensures [skip] forkSkip(p, result)
  ensures [skipped] forkSkipped(p, result)
  ensures [loop] forkLoop(p, result)

macro stmtAt(r, blk, i) = curFrame(r).pc == fmt2("%s.Stmts[%d]", iface(blk), iface(i))
macro ranStmt(r, n, i) = len(curFrame(r).scope.skipstmts) == n + 1 && curFrame(r).scope.skipstmts[n] == i
macro inInts(s, i) = exists j int {{s[j]}} :: 0 <= j && j < len(s) && s[j] == i

func (*Thread).forkRemainingStmts
  props C10
  timeout 30
  requires stackOK(t) && topFrame(t) != nil && topFrame(t).scope != nil && procOK(t.Process) && t.Process.Threads[t.Process.Current] == t && b != nil
  requires arr(topFrame(t).scope.skipstmts) != arr(t.Process.Children)
  requires len(topFrame(t).scope.skipstmts) <= len(b.Stmts)
  modifies t.Process.Children, elems(t.Process.Children)
  loop 1
    invariant off(forks) == 0 && fresh(arr(forks)) && arr(forks) != arr(t.Process.Children)
    invariant arr(t.Process.Children) == old(arr(t.Process.Children)) || fresh(arr(t.Process.Children))
    invariant forall q int {{contents(forks)[q]}} :: 0 <= q && q < len(forks) ==> contents(forks)[q] != nil && branchOK(contents(forks)[q])
    invariant forall q int {{contents(forks)[q]}} :: 0 <= q && q < len(forks) ==> exists i int :: 0 <= i && i < $k && !inInts(skipstmts, i) && stmtAt(contents(forks)[q], blockPath, i) && ranStmt(contents(forks)[q], len(skipstmts), i)
    invariant forall i int {{b.Stmts[i]}} :: 0 <= i && i < $k && b.Stmts[i] != nil && !inInts(skipstmts, i) ==> exists q int {{contents(forks)[q]}} :: 0 <= q && q < len(forks) && stmtAt(contents(forks)[q], blockPath, i) && ranStmt(contents(forks)[q], len(skipstmts), i)
  ensures [each] forall q int {{contents(result)[q]}} :: off(result) <= q && q < off(result) + len(result) ==> exists i int :: 0 <= i && i < len(b.Stmts) && !inInts(old(topFrame(t).scope.skipstmts), i) && stmtAt(contents(result)[q], blockPath, i) && ranStmt(contents(result)[q], old(len(topFrame(t).scope.skipstmts)), i)
  ensures [all] forall i int {{b.Stmts[i]}} :: 0 <= i && i < len(b.Stmts) && b.Stmts[i] != nil && !inInts(old(topFrame(t).scope.skipstmts), i) ==> exists q int {{contents(result)[q]}} :: off(result) <= q && q < off(result) + len(result) && stmtAt(contents(result)[q], blockPath, i) && ranStmt(contents(result)[q], old(len(topFrame(t).scope.skipstmts)), i)

// the syntax tree does not change while it is executed
ghost protoAt(*ast.File; string) error
extern github.com/fizzbee-io/fizzbee/modelchecker.GetProtoFieldByPath : file, location
  modifies nothing
  ensures result == protoAt(file, location)
macro fileOf(t) = t.Files[topFrame(t).FileIndex]
macro blockOf(t) = protoAt(fileOf(t), topFrame(t).pc).(*ast.Block)
macro threadOK(t) = stackOK(t) && topFrame(t) != nil && topFrame(t).scope != nil && procOK(t.Process) && t.Process.Threads[t.Process.Current] == t && 0 <= topFrame(t).FileIndex && topFrame(t).FileIndex < len(t.Files)

func (*Thread).currentFileAst
  props C10
  requires stackOK(t) && topFrame(t) != nil && 0 <= topFrame(t).FileIndex && topFrame(t).FileIndex < len(t.Files)
  modifies nothing
  ensures [file] result == fileOf(t)

func convertToBlock
  props C10
  requires typeis(message, *ast.Block)
  modifies nothing
  ensures [same] result == message.(*ast.Block)

macro flowIn(b, s) = ite(b.Flow == 0, s.flow, b.Flow)
func (*Thread).executeBlock
  props C10
  timeout 30
  requires threadOK(t) && typeis(protoAt(fileOf(t), topFrame(t).pc), *ast.Block) && blockOf(t) != nil
  modifies topFrame(t).scope, topFrame(t).pc, t.Process.Children, elems(t.Process.Children)
  loop 1
    invariant off(forks) == 0 && fresh(arr(forks))
    invariant len(forks) == len(b.Stmts)
    invariant arr(t.Process.Children) == old(arr(t.Process.Children)) || fresh(arr(t.Process.Children))
    invariant topFrame(t).scope == newScope && topFrame(t).pc == old(topFrame(t).pc) && newScope.flow == entry(newScope.flow)
    invariant len(newScope.skipstmts) == 0
  loop 2
    invariant off(forks) == 0 && fresh(arr(forks))
    invariant len(forks) == len(b.Stmts)
    invariant arr(t.Process.Children) == old(arr(t.Process.Children)) || fresh(arr(t.Process.Children))
    invariant topFrame(t).scope == newScope && topFrame(t).pc == old(topFrame(t).pc) && newScope.flow == entry(newScope.flow)
    invariant len(newScope.skipstmts) == 0
  ensures [scope] fresh(topFrame(t).scope) && topFrame(t).scope.parent == old(topFrame(t).scope)
  ensures [flow] topFrame(t).scope.flow == old(flowIn(blockOf(t), topFrame(t).scope))
  ensures [first] flowAtomic(topFrame(t).scope) || flowSerial(topFrame(t).scope) ==> result == nil && topFrame(t).pc == old(topFrame(t).pc) + ".Stmts[0]"
  ensures [branches] flowOneof(topFrame(t).scope) || flowParallel(topFrame(t).scope) ==> len(result) == old(len(blockOf(t).Stmts)) && topFrame(t).pc == old(topFrame(t).pc)

func (*Thread).pushFrame
  props C10
  requires t != nil && t.Stack != nil && t.Stack.Stack != nil && stackInv(t.Stack.Stack)
  modifies t.Stack.Stack.s, t.Stack.Stack.peak, t.Stack.Stack.head, elems(t.Stack.Stack.s)
  ensures [top] len(t.Stack.Stack.s) == old(len(t.Stack.Stack.s)) + 1 && stackInv(t.Stack.Stack) && topFrame(t) == frame

func (*Thread).popFrame
  props C10
  requires stackOK(t)
  modifies t.Stack.Stack.s, t.Stack.Stack.peak, t.Stack.Stack.head, elems(t.Stack.Stack.s)
  ensures [top] result == old(topFrame(t))
  ensures [rest] len(t.Stack.Stack.s) == old(len(t.Stack.Stack.s)) - 1 && stackInv(t.Stack.Stack)

// ---- end of a statement ----
ghost endOfBlock(string) string
ghost parentBlock(string) string
extern github.com/fizzbee-io/fizzbee/modelchecker.EndOfBlock : path
  modifies nothing
  ensures result == endOfBlock(path)
extern github.com/fizzbee-io/fizzbee/modelchecker.ParentBlockPath : path
  modifies nothing
  ensures result == parentBlock(path)
extern (*github.com/fizzbee-io/fizzbee/modelchecker.Thread).FindNextProgramCounter : t
  modifies nothing
ghost hasSuffix(string; string) bool
extern strings.HasSuffix : s, suffix
  modifies nothing
  ensures result == hasSuffix(s, suffix)

macro parBlock(t) = protoAt(fileOf(t), parentBlock(topFrame(t).pc)).(*ast.Block)
func (*Thread).executeEndOfStatement
  props C10
  timeout 30
  requires threadOK(t)
  requires arr(topFrame(t).scope.skipstmts) != arr(t.Process.Children)
  requires flowParallel(topFrame(t).scope) && !hasSuffix(topFrame(t).pc, ".ForStmt") ==> typeis(protoAt(fileOf(t), parentBlock(topFrame(t).pc)), *ast.Block) && parBlock(t) != nil && len(topFrame(t).scope.skipstmts) <= len(parBlock(t).Stmts)
  modifies topFrame(t).pc, t.Process.Children, elems(t.Process.Children)
  panics !(flowSerial(topFrame(t).scope) || flowAtomic(topFrame(t).scope) || flowOneof(topFrame(t).scope) || flowParallel(topFrame(t).scope))
  ensures [atomic] flowAtomic(topFrame(t).scope) ==> len(result0) == 0 && !result1
  ensures [serial] flowSerial(topFrame(t).scope) ==> len(result0) == 0 && result1 == old(t.Process.Enabled)
  ensures [oneof] flowOneof(topFrame(t).scope) ==> len(result0) == 0 && !result1 && topFrame(t).pc == endOfBlock(old(topFrame(t).pc))
  ensures [last] flowParallel(topFrame(t).scope) && !hasSuffix(old(topFrame(t).pc), ".ForStmt") && len(topFrame(t).scope.skipstmts) == old(len(parBlock(t).Stmts)) ==> len(result0) == 0 && !result1 && topFrame(t).pc == endOfBlock(old(topFrame(t).pc))
  ensures [more] flowParallel(topFrame(t).scope) && !hasSuffix(old(topFrame(t).pc), ".ForStmt") && len(topFrame(t).scope.skipstmts) < old(len(parBlock(t).Stmts)) ==> topFrame(t).pc == "" && result1 == old(t.Process.Enabled)
  ensures [forks] flowParallel(topFrame(t).scope) && !hasSuffix(old(topFrame(t).pc), ".ForStmt") && len(topFrame(t).scope.skipstmts) < old(len(parBlock(t).Stmts)) ==> forall i int {{old(parBlock(t)).Stmts[i]}} :: 0 <= i && i < old(len(parBlock(t).Stmts)) && old(parBlock(t)).Stmts[i] != nil && !inInts(topFrame(t).scope.skipstmts, i) ==> exists q int {{contents(result0)[q]}} :: off(result0) <= q && q < off(result0) + len(result0) && stmtAt(contents(result0)[q], parentBlock(old(topFrame(t).pc)), i)

ghost removeLastFor(string) string
extern github.com/fizzbee-io/fizzbee/modelchecker.RemoveLastForStmt : path
  modifies nothing
  ensures result == removeLastFor(path)

ghost strOf(any) string
extern (go.starlark.net/starlark.Value).String : v
  modifies nothing
  ensures result == strOf(v)
extern (*github.com/fizzbee-io/fizzbee/lib.Role).RefString : r
  modifies nothing

macro endOK(t, pc, sc) = sc != nil && arr(sc.skipstmts) != arr(t.Process.Children) && (flowParallel(sc) && !hasSuffix(pc, ".ForStmt") ==> typeis(protoAt(fileOf(t), parentBlock(pc)), *ast.Block) && protoAt(fileOf(t), parentBlock(pc)).(*ast.Block) != nil && len(sc.skipstmts) <= len(protoAt(fileOf(t), parentBlock(pc)).(*ast.Block).Stmts)) && (flowSerial(sc) || flowAtomic(sc) || flowOneof(sc) || flowParallel(sc))
macro straight(s) = flowSerial(s) || flowAtomic(s)
func (*Thread).executeForStatement
  props C10
  timeout 30
  requires threadOK(t) && len(topFrame(t).scope.loopVars) == 1
  requires len(topFrame(t).scope.loopRange) == 0 ==> endOK(t, removeLastFor(topFrame(t).pc), topFrame(t).scope.parent)
  requires len(topFrame(t).scope.loopRange) > 0 ==> topFrame(t).scope.vars != nil
  modifies topFrame(t).scope, topFrame(t).pc, topFrame(t).scope.loopRange, map(topFrame(t).scope.vars), t.Process.Children, elems(t.Process.Children)
  loop 1
    invariant off(forks) == 0 && fresh(arr(forks)) && arr(forks) != arr(t.Process.Children) && len(forks) == $k
    invariant childrenKept(t.Process)
    invariant topFrame(t).scope == old(topFrame(t).scope) && topFrame(t).pc == entry(topFrame(t).pc)
    invariant topFrame(t).scope.loopRange == old(topFrame(t).scope.loopRange)
  ensures [leave] old(len(topFrame(t).scope.loopRange)) == 0 ==> topFrame(t).scope == old(topFrame(t).scope.parent)
  ensures [next] old(len(topFrame(t).scope.loopRange)) > 0 ==> topFrame(t).scope == old(topFrame(t).scope) && !result1
  ensures [bind] old(len(topFrame(t).scope.loopRange)) > 0 && straight(topFrame(t).scope) ==> len(result0) == 0 && topFrame(t).scope.vars[topFrame(t).scope.loopVars[0]] == old(topFrame(t).scope.loopRange[0])
  ensures [rest] old(len(topFrame(t).scope.loopRange)) > 0 && straight(topFrame(t).scope) ==> len(topFrame(t).scope.loopRange) == old(len(topFrame(t).scope.loopRange)) - 1 && forall j int {{topFrame(t).scope.loopRange[j]}} :: 0 <= j && j < len(topFrame(t).scope.loopRange) ==> topFrame(t).scope.loopRange[j] == old(topFrame(t).scope.loopRange[j+1])
  ensures [branches] old(len(topFrame(t).scope.loopRange)) > 0 && !straight(topFrame(t).scope) ==> len(result0) == old(len(topFrame(t).scope.loopRange))
