package github.com/fizzbee-io/fizzbee/modelchecker

// C14: what a crash keeps and what it resets.

macro hasSpec(d, role) = d.RoleDurabilitySpec != nil && role in dom(d.RoleDurabilitySpec) && (len(d.RoleDurabilitySpec[role].durableFields) > 0 || len(d.RoleDurabilitySpec[role].ephemeralFields) > 0)
macro keeps(d, role, field) = ite(len(d.RoleDurabilitySpec[role].durableFields) > 0, field in dom(d.RoleDurabilitySpec[role].durableFields), !(d.RoleDurabilitySpec[role].ephemeralFields != nil && field in dom(d.RoleDurabilitySpec[role].ephemeralFields)))

func (*DurabilitySpec).HasDurabilitySpec
  props C14
  requires d != nil
  modifies nothing
  ensures [spec] result <==> hasSpec(d, role)

func (*DurabilitySpec).IsFieldDurable
  props C14
  requires d != nil
  modifies nothing
  ensures [none] !hasSpec(d, role) ==> result
  ensures [listed] hasSpec(d, role) ==> (result <==> keeps(d, role, field))

// the threads of one instance stop, all others stay as they are
macro inRole(t, r) = t != nil && topFrame(t).obj != nil && refShort(topFrame(t).obj) == refShort(r)
macro threadsOK(p) = forall i int {{p.Threads[i]}} :: 0 <= i && i < len(p.Threads) && p.Threads[i] != nil ==> stackOK(p.Threads[i]) && topFrame(p.Threads[i]) != nil

func (*Process).removeThreadsOf
  props C14
  requires p != nil && role != nil && threadsOK(p)
  modifies p.Current, elems(p.Threads)
  loop 1
    invariant p.Threads == old(p.Threads)
    invariant forall i int {{p.Threads[i]}} :: 0 <= i && i < len(p.Threads) ==> p.Threads[i] == ite(i < $k && inRole(old(p.Threads[i]), role), nil, old(p.Threads[i]))
  ensures [stopped] forall i int {{p.Threads[i]}} :: 0 <= i && i < len(p.Threads) && inRole(old(p.Threads[i]), role) ==> p.Threads[i] == nil
  ensures [others] forall i int {{p.Threads[i]}} :: 0 <= i && i < len(p.Threads) && !inRole(old(p.Threads[i]), role) ==> p.Threads[i] == old(p.Threads[i])
  ensures [count] len(p.Threads) == old(len(p.Threads))

// which threads may crash: the ones whose action did not opt out
macro rootFrame(t) = t.Stack.Stack.s[0]
macro optedOut(p, name) = p.config.ActionOptions != nil && name in dom(p.config.ActionOptions) && p.config.ActionOptions[name] != nil && p.config.ActionOptions[name].CrashOnYield != nil && !*p.config.ActionOptions[name].CrashOnYield
macro crashesOn(p) = p.config.Options != nil && p.config.Options.CrashOnYield != nil && *p.config.Options.CrashOnYield

func (*Processor).shouldThreadCrash
  props C14
  requires p != nil && p.config != nil && node != nil && node.Process != nil
  requires node.Process.Current >= 0 ==> node.Process.Current < len(node.Process.Threads) && threadsOK(node.Process)
  requires node.Process.Current >= 0 && !(forall i int {{node.Process.Threads[i]}} :: 0 <= i && i < len(node.Process.Threads) ==> node.Process.Threads[i] == nil) ==> node.Process.Threads[node.Process.Current] != nil
  modifies nothing
  ensures [off] !crashesOn(p) ==> !result
  ensures [none] (forall i int {{node.Process.Threads[i]}} :: 0 <= i && i < len(node.Process.Threads) ==> node.Process.Threads[i] == nil) ==> !result
  ensures [opt] crashesOn(p) && node.Process.Current >= 0 && (exists i int {{node.Process.Threads[i]}} :: 0 <= i && i < len(node.Process.Threads) && node.Process.Threads[i] != nil) ==> (result <==> !optedOut(p, rootFrame(curT(node)).Name))

// A record, as far as crashes are concerned: the log of what was written to it (the record itself is checked by the
// executable contracts).
ghostvar sets(any) int
ghostvar setName(any) seq[string]
ghostvar setVal(any) seq[error]
ghost names(any) seq[string]
ghost nnames(any) int
ghost valOf(any; string) error
extern (*github.com/fizzbee-io/fizzbee/lib.Struct).AttrNames : s
  modifies nothing
  ensures fresh(arr(result)) && len(result) == nnames(iface(s))
  ensures forall q int {{result[q]}} :: 0 <= q && q < len(result) ==> result[q] == names(iface(s))[q]
extern (*github.com/fizzbee-io/fizzbee/lib.Struct).Attr : s, name
  modifies nothing
  ensures result0 == valOf(iface(s), name)
  ensures forall q int {{names(iface(s))[q]}} :: 0 <= q && q < nnames(iface(s)) && names(iface(s))[q] == name ==> result1 == nil
extern (*github.com/fizzbee-io/fizzbee/lib.Struct).SetField : s, name, val
  modifies sets(iface(s)), setName(iface(s)), setVal(iface(s))
  ensures sets(iface(s)) == old(sets(iface(s))) + 1
  ensures setName(iface(s)) == seqput(old(setName(iface(s))), old(sets(iface(s))), name) && setVal(iface(s)) == seqput(old(setVal(iface(s))), old(sets(iface(s))), val)
ghost copyOf(error; error) bool
extern (*github.com/fizzbee-io/fizzbee/modelchecker.Process).cloneWithinProcess : p, record
  modifies nothing
  ensures fresh(result) && nnames(iface(result)) == nnames(iface(record)) && names(iface(result)) == names(iface(record))
  ensures forall n string {{valOf(iface(result), n)}} :: copyOf(valOf(iface(result), n), valOf(iface(record), n))

macro sameRole(r, o) = refShort(r) == refShort(o)
macro firstOf(n, o, k) = 0 <= k && k < len(n.Process.Roles) && sameRole(n.Process.Roles[k], o) && forall i int {{n.Process.Roles[i]}} :: 0 <= i && i < k ==> !sameRole(n.Process.Roles[i], o)
macro untouched(f) = sets(f) == old(sets(f)) && setName(f) == old(setName(f)) && setVal(f) == old(setVal(f))
macro fld(r) = iface(r.Fields)
macro reset(r, q) = setName(fld(r))[old(sets(fld(r))) + q] == names(iface(r.InitValues))[q] && copyOf(setVal(fld(r))[old(sets(fld(r))) + q], valOf(iface(r.InitValues), names(iface(r.InitValues))[q]))

func (*Processor).ResetEphemeralVariables
  props C14
  noframe
  requires node != nil && node.Process != nil && oldRole != nil
  requires forall i int {{node.Process.Roles[i]}} :: 0 <= i && i < len(node.Process.Roles) ==> node.Process.Roles[i] != nil && node.Process.Roles[i].Fields != nil && allocated(node.Process.Roles[i].Fields) && nnames(iface(node.Process.Roles[i].InitValues)) >= 0
  loop 1
    invariant forall i int {{node.Process.Roles[i]}} :: 0 <= i && i < $k ==> !sameRole(node.Process.Roles[i], oldRole)
    invariant role == nil
  loop 2
    invariant $k <= nnames(iface(role.InitValues)) && sets(fld(role)) == entry(sets(fld(role))) + $k
    invariant forall q int {{setName(fld(role))[q]}} :: 0 <= q && q < entry(sets(fld(role))) ==> setName(fld(role))[q] == entry(setName(fld(role)))[q]
    invariant forall q int {{names(iface(role.InitValues))[q]}} :: 0 <= q && q < $k ==> setName(fld(role))[entry(sets(fld(role))) + q] == names(iface(role.InitValues))[q]
    invariant forall q int {{names(iface(role.InitValues))[q]}} :: 0 <= q && q < $k ==> copyOf(setVal(fld(role))[entry(sets(fld(role))) + q], valOf(iface(role.InitValues), names(iface(role.InitValues))[q]))
    invariant forall f error {{sets(f)}} :: f != fld(role) ==> sets(f) == old(sets(f)) && setName(f) == old(setName(f)) && setVal(f) == old(setVal(f))
  ensures [reset] forall k int {{node.Process.Roles[k]}} :: firstOf(node, oldRole, k) ==> sets(fld(node.Process.Roles[k])) == old(sets(fld(node.Process.Roles[k]))) + nnames(iface(node.Process.Roles[k].InitValues)) && forall q int {{names(iface(node.Process.Roles[k].InitValues))[q]}} :: 0 <= q && q < nnames(iface(node.Process.Roles[k].InitValues)) ==> reset(node.Process.Roles[k], q)
  ensures [others] forall k int, f error {{node.Process.Roles[k], sets(f)}} :: firstOf(node, oldRole, k) && f != fld(node.Process.Roles[k]) ==> untouched(f)
  ensures [nothing] (forall i int {{node.Process.Roles[i]}} :: 0 <= i && i < len(node.Process.Roles) ==> !sameRole(node.Process.Roles[i], oldRole)) ==> forall f error {{sets(f)}} :: untouched(f)

// what a crash resets is what Init left in the fields that are not durable
macro lasts(d, role, field) = hasSpec(d, role) ==> keeps(d, role, field)
macro fldsOf(o) = iface(o.obj.Fields)
macro iniOf(o) = iface(o.obj.InitValues)

func (*Thread).CopyInitValuesForEphemeralFields
  props C14
  noframe
  requires t != nil && t.Process != nil && t.Process.durabilitySpec != nil && oldFrame != nil && oldFrame.obj != nil && oldFrame.obj.Fields != nil && oldFrame.obj.InitValues != nil
  requires allocated(oldFrame.obj.InitValues) && sets(iniOf(oldFrame)) >= 0 && nnames(fldsOf(oldFrame)) >= 0
  loop 1
    invariant $k <= nnames(fldsOf(oldFrame)) && sets(iniOf(oldFrame)) >= old(sets(iniOf(oldFrame)))
    invariant forall q int {{setName(iniOf(oldFrame))[q]}} :: old(sets(iniOf(oldFrame))) <= q && q < sets(iniOf(oldFrame)) ==> !lasts(t.Process.durabilitySpec, oldFrame.obj.Name, setName(iniOf(oldFrame))[q])
    invariant forall q int {{setName(iniOf(oldFrame))[q]}} :: old(sets(iniOf(oldFrame))) <= q && q < sets(iniOf(oldFrame)) ==> copyOf(setVal(iniOf(oldFrame))[q], valOf(fldsOf(oldFrame), setName(iniOf(oldFrame))[q]))
    invariant forall j int {{names(fldsOf(oldFrame))[j]}} :: 0 <= j && j < $k && !lasts(t.Process.durabilitySpec, oldFrame.obj.Name, names(fldsOf(oldFrame))[j]) ==> exists q int {{setName(iniOf(oldFrame))[q]}} :: old(sets(iniOf(oldFrame))) <= q && q < sets(iniOf(oldFrame)) && setName(iniOf(oldFrame))[q] == names(fldsOf(oldFrame))[j]
    invariant forall f error {{sets(f)}} :: f != iniOf(oldFrame) ==> untouched(f)
  ensures [lost] forall q int {{setName(iniOf(oldFrame))[q]}} :: old(sets(iniOf(oldFrame))) <= q && q < sets(iniOf(oldFrame)) ==> !lasts(t.Process.durabilitySpec, oldFrame.obj.Name, setName(iniOf(oldFrame))[q])
  ensures [values] forall q int {{setName(iniOf(oldFrame))[q]}} :: old(sets(iniOf(oldFrame))) <= q && q < sets(iniOf(oldFrame)) ==> copyOf(setVal(iniOf(oldFrame))[q], valOf(fldsOf(oldFrame), setName(iniOf(oldFrame))[q]))
  ensures [all] forall j int {{names(fldsOf(oldFrame))[j]}} :: 0 <= j && j < nnames(fldsOf(oldFrame)) && !lasts(t.Process.durabilitySpec, oldFrame.obj.Name, names(fldsOf(oldFrame))[j]) ==> exists q int {{setName(iniOf(oldFrame))[q]}} :: old(sets(iniOf(oldFrame))) <= q && q < sets(iniOf(oldFrame)) && setName(iniOf(oldFrame))[q] == names(fldsOf(oldFrame))[j]
  ensures [others] forall f error {{sets(f)}} :: f != iniOf(oldFrame) ==> untouched(f)
