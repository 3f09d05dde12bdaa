package github.com/fizzbee-io/fizzbee/modelchecker

// C08: an assignment writes the variable that a read of the same name finds, and nothing else.

macro defd(m, k) = m != nil && k in dom(m)

macro chainsOK() = forall x_all *Scope {{x_all.parent}} :: x_all != nil && x_all.parent != nil ==> depthOf(x_all) > depthOf(x_all.parent)

// the innermost scope that has the name; the definition is unfolded along the chain of scopes
ghost holderOf(*Scope; string) *Scope
macro holders(k) = holderOf(nil, k) == nil && forall s_all *Scope {{s_all.vars, holderOf(s_all, k)}} :: s_all != nil ==> (defd(s_all.vars, k) ==> holderOf(s_all, k) == s_all) && (!defd(s_all.vars, k) ==> holderOf(s_all, k) == holderOf(s_all.parent, k))
macro unchanged(mm, kk) = (kk in dom(mm) <==> old(kk in dom(mm))) && mm[kk] == old(mm[kk])
macro mapKept(m) = forall k string {{k in dom(m)}} {{m[k]}} :: (k in dom(m) <==> old(k in dom(m))) && m[k] == old(m[k])
macro mapKeptBut(m, key) = forall k string {{k in dom(m)}} {{m[k]}} :: k != key ==> (k in dom(m) <==> old(k in dom(m))) && m[k] == old(m[k])

func (*Process).updateScopedVariable
  props C08
  noalloc
  requires holders(key) && chainsOK()
  decreases ite(scope == nil, 0, depthOf(scope) + 1)
  modifies map(holderOf(scope, key).vars)
  ensures [found] result <==> holderOf(scope, key) != nil
  ensures [written] result ==> defd(holderOf(scope, key).vars, key) && holderOf(scope, key).vars[key] == val
  ensures [others] result ==> mapKeptBut(holderOf(scope, key).vars, key)
  ensures [nothing] !result ==> mapKept(holderOf(scope, key).vars)

func (*Heap).update
  props C08
  noalloc
  requires h != nil
  modifies map(h.state)
  ensures [found] result <==> old(defd(h.state, k))
  ensures [written] result ==> defd(h.state, k) && h.state[k] == v
  ensures [others] mapKeptBut(h.state, k)
  ensures [nothing] !result ==> mapKept(h.state)

func (*Heap).GetValue
  props C08
  requires h != nil
  modifies nothing
  ensures [value] defd(h.state, k) ==> result == h.state[k]

func (*Heap).insert
  props C08
  requires h != nil && h.state != nil
  modifies map(h.state)
  ensures [written] defd(h.state, k) && h.state[k] == v
  ensures [others] mapKeptBut(h.state, k)

ghost typeName(any) string
extern (go.starlark.net/starlark.StringDict).Has : d, k
  noalloc
  modifies nothing
  ensures result <==> defd(d, k)
extern (go.starlark.net/starlark.Value).Type : v
  noalloc
  modifies nothing
  ensures result == typeName(v)

macro bound(f, key) = holderOf(f.scope, key) != nil
macro declares(p, f, key, val) = !bound(f, key) && !old(defd(f.vars, key)) && !old(defd(p.Heap.state, key)) && !old(defd(p.Heap.globals, key)) && key != "self" && typeName(val) != "builtin_function_or_method" && typeName(val) != "module"

func (*Process).updateVariableInternal
  props C08
  requires p != nil && p.Heap != nil && frame != nil && frame.scope != nil && p.Stats != nil
  requires holders(key) && chainsOK()
  requires frame.vars == nil || frame.vars != p.Heap.state
  modifies map(holderOf(frame.scope, key).vars), map(frame.vars), map(p.Heap.state), map(frame.scope.vars), frame.obj, p.topLevelVars, elems(p.topLevelVars)
  ensures [local] bound(frame, key) ==> defd(holderOf(frame.scope, key).vars, key) && holderOf(frame.scope, key).vars[key] == val && mapKeptBut(holderOf(frame.scope, key).vars, key)
  ensures [argument] !bound(frame, key) && old(defd(frame.vars, key)) ==> defd(frame.vars, key) && frame.vars[key] == val && mapKeptBut(frame.vars, key)
  ensures [state] !bound(frame, key) && !old(defd(frame.vars, key)) && old(defd(p.Heap.state, key)) ==> defd(p.Heap.state, key) && p.Heap.state[key] == val && mapKeptBut(p.Heap.state, key)
  ensures [declare] declares(p, frame, key, val) ==> defd(frame.scope.vars, key) && frame.scope.vars[key] == val && mapKeptBut(frame.scope.vars, key)
  ensures [only] forall m starlark.StringDict, k string {{k in dom(m)}} {{m[k]}} :: k != key ==> unchanged(m, k)
  ensures [localOnly] bound(frame, key) ==> forall m starlark.StringDict {{key in dom(m)}} {{m[key]}} :: m != holderOf(frame.scope, key).vars ==> unchanged(m, key)
  ensures [argumentOnly] !bound(frame, key) && old(defd(frame.vars, key)) ==> forall m starlark.StringDict {{key in dom(m)}} {{m[key]}} :: m != frame.vars ==> unchanged(m, key)
  ensures [stateOnly] !bound(frame, key) && !old(defd(frame.vars, key)) && old(defd(p.Heap.state, key)) ==> forall m starlark.StringDict {{key in dom(m)}} {{m[key]}} :: m != p.Heap.state ==> unchanged(m, key)
  ensures [declareOnly] !bound(frame, key) && !old(defd(frame.vars, key)) && !old(defd(p.Heap.state, key)) ==> forall m starlark.StringDict {{key in dom(m)}} {{m[key]}} :: m != frame.scope.vars ==> unchanged(m, key)
  ensures [undeclared] !bound(frame, key) && !old(defd(frame.vars, key)) && !old(defd(p.Heap.state, key)) && !declares(p, frame, key, val) ==> forall m starlark.StringDict {{key in dom(m)}} {{m[key]}} :: unchanged(m, key)
  ensures [self] key != "self" || bound(frame, key) || old(defd(frame.vars, key)) || old(defd(p.Heap.state, key)) ==> frame.obj == old(frame.obj)
  ensures [names] len(p.topLevelVars) == old(len(p.topLevelVars)) || len(p.topLevelVars) == old(len(p.topLevelVars)) + 1 && p.topLevelVars[old(len(p.topLevelVars))] == key

macro thisFrame(p) = topFrame(p.Threads[p.Current])
macro hasFrame(p) = p != nil && p.Heap != nil && p.Stats != nil && 0 <= p.Current && p.Current < len(p.Threads) && stackOK(p.Threads[p.Current]) && thisFrame(p) != nil && thisFrame(p).scope != nil
macro allHolders() = (forall k string {{holderOf(nil, k)}} :: holderOf(nil, k) == nil) && forall s_all *Scope, k string {{s_all.vars, holderOf(s_all, k)}} :: s_all != nil ==> (defd(s_all.vars, k) ==> holderOf(s_all, k) == s_all) && (!defd(s_all.vars, k) ==> holderOf(s_all, k) == holderOf(s_all.parent, k))

func (*Process).updateVariable
  props C08
  requires hasFrame(p) && allHolders() && chainsOK()
  requires thisFrame(p).vars == nil || thisFrame(p).vars != p.Heap.state
  modifies map(holderOf(thisFrame(p).scope, key).vars), map(thisFrame(p).vars), map(p.Heap.state), map(thisFrame(p).scope.vars), thisFrame(p).obj, p.topLevelVars, elems(p.topLevelVars)
  ensures [local] bound(thisFrame(p), key) ==> defd(holderOf(thisFrame(p).scope, key).vars, key) && holderOf(thisFrame(p).scope, key).vars[key] == val
  ensures [argument] !bound(thisFrame(p), key) && old(defd(thisFrame(p).vars, key)) ==> defd(thisFrame(p).vars, key) && thisFrame(p).vars[key] == val
  ensures [state] !bound(thisFrame(p), key) && !old(defd(thisFrame(p).vars, key)) && old(defd(p.Heap.state, key)) ==> p.Heap.state[key] == val
  ensures [only] forall m starlark.StringDict, k string {{k in dom(m)}} {{m[k]}} :: k != key ==> unchanged(m, k)

func (*Process).updateAllVariablesInScope
  props C08
  noframe
  requires hasFrame(p) && allHolders() && chainsOK() && dict != nil
  requires forall s *Scope {{s.vars}} :: s != nil ==> s.vars != dict
  requires thisFrame(p).vars != dict && p.Heap.state != dict
  requires thisFrame(p).vars == nil || thisFrame(p).vars != p.Heap.state
  loop 1
    invariant [holders] forall s_all *Scope, k string {{s_all.vars, holderOf(s_all, k)}} :: !(k in $seen) && s_all != nil ==> (defd(s_all.vars, k) ==> holderOf(s_all, k) == s_all) && (!defd(s_all.vars, k) ==> holderOf(s_all, k) == holderOf(s_all.parent, k))
    invariant [done] forall k string {{k in $seen}} :: k in $seen ==> k in dom(dict)
    invariant [todo] forall m starlark.StringDict, k string {{k in dom(m)}} {{m[k]}} :: !(k in $seen) ==> (k in dom(m) <==> entry(k in dom(m))) && m[k] == entry(m[k])
    invariant [dict] forall k string {{k in dom(dict)}} {{dict[k]}} :: (k in dom(dict) <==> entry(k in dom(dict))) && dict[k] == entry(dict[k])
    invariant [local] forall k string {{k in $seen}} :: k in $seen && bound(thisFrame(p), k) ==> defd(holderOf(thisFrame(p).scope, k).vars, k) && holderOf(thisFrame(p).scope, k).vars[k] == dict[k]
    invariant [argument] forall k string {{k in $seen}} :: k in $seen && !bound(thisFrame(p), k) && entry(defd(thisFrame(p).vars, k)) ==> thisFrame(p).vars[k] == dict[k]
    invariant [state] forall k string {{k in $seen}} :: k in $seen && !bound(thisFrame(p), k) && !entry(defd(thisFrame(p).vars, k)) && entry(defd(p.Heap.state, k)) ==> p.Heap.state[k] == dict[k]
  ensures [local] forall k string {{k in dom(dict)}} :: k in dom(dict) && bound(thisFrame(p), k) ==> defd(holderOf(thisFrame(p).scope, k).vars, k) && holderOf(thisFrame(p).scope, k).vars[k] == dict[k]
  ensures [argument] forall k string {{k in dom(dict)}} :: k in dom(dict) && !bound(thisFrame(p), k) && old(defd(thisFrame(p).vars, k)) ==> thisFrame(p).vars[k] == dict[k]
  ensures [state] forall k string {{k in dom(dict)}} :: k in dom(dict) && !bound(thisFrame(p), k) && !old(defd(thisFrame(p).vars, k)) && old(defd(p.Heap.state, k)) ==> p.Heap.state[k] == dict[k]
  ensures [only] forall m starlark.StringDict, k string {{k in dom(m)}} {{m[k]}} :: !(k in dom(dict)) ==> unchanged(m, k)

extern maps.Copy : dst, src
  noalloc
  modifies map(dst)
  ensures forall k string {{k in dom(dst)}} {{dst[k]}} :: defd(src, k) ==> k in dom(dst) && dst[k] == old(src[k])
  ensures forall k string {{k in dom(dst)}} {{dst[k]}} :: !defd(src, k) ==> unchanged(dst, k)
extern maps.Clone : m
  modifies nothing
  ensures (m == nil <==> result == nil) && (m != nil ==> fresh(result))
  ensures forall k string {{k in dom(result)}} {{result[k]}} :: m != nil ==> (k in dom(result) <==> k in dom(m)) && result[k] == m[k]

func (*Scope).getAllVisibleVariablesToDictNoCopy
  props C08
  requires s != nil && dict != nil && allHolders() && chainsOK()
  requires forall s_all *Scope {{s_all.vars}} :: s_all != nil ==> s_all.vars != dict
  decreases depthOf(s)
  modifies map(dict)
  ensures [visible] forall k string {{k in dom(dict)}} {{dict[k]}} :: holderOf(s, k) != nil ==> k in dom(dict) && dict[k] == holderOf(s, k).vars[k]
  ensures [others] forall k string {{k in dom(dict)}} {{dict[k]}} :: holderOf(s, k) == nil ==> unchanged(dict, k)

func (*Scope).Lookup
  props C08
  requires s != nil && holders(name) && chainsOK()
  decreases depthOf(s)
  modifies nothing
  ensures [found] result1 <==> holderOf(s, name) != nil
  ensures [value] result1 ==> result0 == holderOf(s, name).vars[name]

extern go.starlark.net/starlark.NewBuiltin
  modifies nothing
extern github.com/fizzbee-io/fizzbee/lib.CreateResolveRoleBuiltIn
  modifies nothing
extern github.com/fizzbee-io/fizzbee/lib.CreateRoleBuiltin
  modifies nothing
extern github.com/fizzbee-io/fizzbee/lib.CreateChannelBuiltin
  modifies nothing

// names that cannot be used for variables: roles, modules, and three builtins that depend on the state
ghost roleName(string) bool
macro reserved(p, k) = roleName(k) || k == "deepcopy" || k == "resolve_role" || k == "Channel" || defd(p.Modules, k)
macro asRead(p, d) = (forall k string {{d[k]}} {{k in dom(d)}} :: !reserved(p, k) && bound(thisFrame(p), k) ==> k in dom(d) && d[k] == holderOf(thisFrame(p).scope, k).vars[k]) && (forall k string {{d[k]}} {{k in dom(d)}} :: !reserved(p, k) && !bound(thisFrame(p), k) && defd(thisFrame(p).vars, k) ==> k in dom(d) && d[k] == thisFrame(p).vars[k]) && (forall k string {{d[k]}} {{k in dom(d)}} :: !reserved(p, k) && !bound(thisFrame(p), k) && !defd(thisFrame(p).vars, k) && (k != "self" || thisFrame(p).obj == nil) && defd(p.Heap.state, k) ==> k in dom(d) && d[k] == p.Heap.state[k]) && (forall k string {{d[k]}} {{k in dom(d)}} :: !reserved(p, k) && !bound(thisFrame(p), k) && !defd(thisFrame(p).vars, k) && (k != "self" || thisFrame(p).obj == nil) && !defd(p.Heap.state, k) && defd(p.Heap.globals, k) ==> k in dom(d) && d[k] == p.Heap.globals[k])

func (*Process).GetAllVariablesNocopy
  props C08
  requires hasFrame(p) && allHolders() && chainsOK() && lib.Builtins != nil
  requires forall s_all *Scope {{s_all.vars}} :: s_all != nil && s_all.vars != nil ==> allocated(s_all.vars)
  requires forall f_all *proto.File, i int {{f_all.Roles[i]}} :: f_all != nil && 0 <= i && i < len(f_all.Roles) ==> roleName(f_all.Roles[i].Name)
  modifies nothing
  loop 1
    invariant asRead(p, dict)
  loop 2
    invariant asRead(p, dict)
  ensures [new] fresh(result)
  ensures [read] asRead(p, result)
