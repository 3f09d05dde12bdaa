package github.com/fizzbee-io/fizzbee/lib

// ---------- the thread's symmetry context ----------
ghost tlocal(*starlark.Thread; string) any
extern (*go.starlark.net/starlark.Thread).Local : thread, key
  modifies nothing
  ensures result == tlocal(thread, key)
extern go.starlark.net/starlark.UnpackArgs
  modifies every("starlark.Value"), every("int"), every("bool"), every("string")

macro sctx(thread) = tlocal(thread, "symmetry_context").(*SymmetryContext)
// the baseline scan of the state has run, and a domain's set holds exactly the ids in use (never a false entry)
macro ctxOK(c) = c != nil && allocated(c) && c.initialized && c.Cache != nil && c.LastAllocated != nil &&
   (forall n string {{c.Cache[n]}} :: n in dom(c.Cache) ==> allocated(c.Cache[n]) && c.Cache[n] != nil)
macro usedOK(m) = forall j int64 {{j in dom(m)}} :: j in dom(m) ==> m[j]
macro inUse(c, n, j) = n in dom(c.Cache) && j in dom(c.Cache[n])
macro setLen(c, n) = ite(n in dom(c.Cache), len(c.Cache[n]), 0)

func midpoint
  props C04
  ensures [between] result1 == nil ==> lo < result0 && result0 < hi
  ensures [error] result1 == nil <==> hi - lo >= 2

func (*SymmetryContext).ensureLoaded
  props C04
  requires ctx.initialized
  modifies nothing

func (*SymmetryContext).EnsureDomainInit
  props C04
  requires ctxOK(ctx)
  modifies map(ctx.Cache)
  ensures [init] ctxOK(ctx) && name in dom(ctx.Cache) && ctx.Cache[name] != nil
  ensures [new] !old(name in dom(ctx.Cache)) ==> fresh(ctx.Cache[name]) && len(ctx.Cache[name]) == 0 && forall j int64 :: !(j in dom(ctx.Cache[name]))
  ensures [keep] forall n string :: n != name || old(name in dom(ctx.Cache)) ==> (n in dom(ctx.Cache) <==> old(n in dom(ctx.Cache))) && ctx.Cache[n] == old(ctx.Cache[n])

func (*SymmetryDomain).fresh
  props C04
  requires [ctx] typeis(tlocal(thread, "symmetry_context"), *SymmetryContext) && ctxOK(sctx(thread))
  requires [used] forall n string {{sctx(thread).Cache[n]}} :: n in dom(sctx(thread).Cache) ==> usedOK(sctx(thread).Cache[n])
  requires [distinct] forall n string {{sctx(thread).Cache[n]}} :: n in dom(sctx(thread).Cache) && n != d.Name ==> sctx(thread).Cache[n] != sctx(thread).Cache[d.Name]
  requires [rot] d.Kind == "rotational" ==> d.Limit >= 2 && (d.Name in dom(sctx(thread).LastAllocated) ==> 0 <= sctx(thread).LastAllocated[d.Name] && sctx(thread).LastAllocated[d.Name] < d.Limit)
  requires [kind] d.Kind == "nominal" || d.Kind == "ordinal" || d.Kind == "interval" || d.Kind == "rotational"
  modifies map(sctx(thread).Cache), map(sctx(thread).Cache[d.Name]), map(sctx(thread).LastAllocated), every("starlark.Value"), every("int"), every("bool"), every("string")
  loop 1
    invariant nextID >= 0 && forall j int64 :: 0 <= j && j < nextID ==> j in dom(ctx.Cache[d.Name])
  loop 2
    invariant hasValues <==> exists j int64 :: j in $seen
    invariant hasValues ==> minID in $seen && maxID in $seen && minID in dom(ctx.Cache[d.Name]) && maxID in dom(ctx.Cache[d.Name])
    invariant forall j int64 :: j in $seen ==> minID <= j && j <= maxID
  loop 3
    invariant 0 <= i
    invariant !found
  loop 4
    invariant hasValues <==> exists j int64 :: j in $seen
    invariant forall j int64 :: j in $seen ==> j <= maxID
    invariant hasValues ==> maxID in $seen && maxID in dom(ctx.Cache[d.Name])
  ensures [domain] result1 == nil ==> typeis(result0, *SymmetricValue) && (let v := result0.(*SymmetricValue) :: v != nil && v.prefix == d.Name && v.Kind == d.Kind && (d.Kind == "rotational" ==> v.Limit == d.Limit))
  ensures [new] result1 == nil ==> let n := result0.(*SymmetricValue).id :: !old(inUse(sctx(thread), d.Name, n))
  ensures [recorded] result1 == nil ==> let v := result0.(*SymmetricValue) :: inUse(sctx(thread), d.Name, v.id)
  ensures [limit] result1 == nil ==> old(setLen(sctx(thread), d.Name)) < d.Limit && !d.Materialize
  ensures [nominal] result1 == nil && d.Kind == "nominal" ==> let v := result0.(*SymmetricValue) :: 0 <= v.id && forall j int64 :: 0 <= j && j < v.id ==> inUse(sctx(thread), d.Name, j)
  ensures [interval-first] result1 == nil && d.Kind == "interval" && old(setLen(sctx(thread), d.Name)) == 0 ==> (let v := result0.(*SymmetricValue) :: v.id == d.Start)
  ensures [interval-next] result1 == nil && d.Kind == "interval" ==> (let v := result0.(*SymmetricValue) :: forall j int64 :: inUse(sctx(thread), d.Name, j) ==> j <= v.id && (d.Divergence > 0 ==> v.id - j <= d.Divergence))
  ensures [ordinal] result1 == nil && d.Kind == "ordinal" ==> (let v := result0.(*SymmetricValue) :: forall j int64 :: inUse(sctx(thread), d.Name, j) ==> j <= v.id)
  ensures [rotational] result1 == nil && d.Kind == "rotational" ==> (let v := result0.(*SymmetricValue) :: 0 <= v.id && v.id < d.Limit)

func NewSymmetricValueWithKind
  props C04
  modifies nothing
  ensures result != nil && fresh(result) && result.prefix == prefix && result.id == i && result.Kind == kind

func NewRotationalSymmetricValue
  props C04
  modifies nothing
  ensures result != nil && fresh(result) && result.prefix == prefix && result.id == i && result.Kind == "rotational" && result.Limit == limit

func (*Segment).fresh
  props C04
  requires [ctx] typeis(tlocal(thread, "symmetry_context"), *SymmetryContext) && ctxOK(sctx(thread))
  requires [dom] s.Domain != nil && allocated(s.Domain)
  requires [used] forall n string {{sctx(thread).Cache[n]}} :: n in dom(sctx(thread).Cache) ==> usedOK(sctx(thread).Cache[n])
  modifies map(sctx(thread).Cache), map(sctx(thread).Cache[s.Domain.Name]), every("starlark.Value"), every("int"), every("bool"), every("string")
  ensures [gap] result1 == nil ==> let v := result0.(*SymmetricValue) :: (v.prefix == s.Domain.Name && v.Kind == s.Domain.Kind && (s.IsHead || s.Left < v.id) && (s.IsTail || v.id < s.Right))
  ensures [new] result1 == nil ==> let n := result0.(*SymmetricValue).id :: !old(inUse(sctx(thread), s.Domain.Name, n)) && inUse(sctx(thread), s.Domain.Name, n)
  ensures [limit] result1 == nil ==> old(setLen(sctx(thread), s.Domain.Name)) < s.Domain.Limit

func (*SymmetryDomain).ensureMaterialized
  props C04
  requires ctxOK(ctx)
  requires [sep] forall n string {{ctx.Cache[n]}} :: n in dom(ctx.Cache) && n != d.Name ==> ctx.Cache[n] != ctx.Cache[d.Name]
  modifies map(ctx.Cache), map(ctx.Cache[d.Name])
  loop 1
    invariant 0 <= i
    invariant forall j int64 {{j in dom(ctx.Cache[d.Name])}} :: 0 <= j && j < i ==> j in dom(ctx.Cache[d.Name])
    invariant forall j int64 {{j in dom(ctx.Cache[d.Name])}} :: j in dom(ctx.Cache[d.Name]) && !(0 <= j && j < i) ==> old(inUse(ctx, d.Name, j))
    invariant forall j int64 {{j in dom(ctx.Cache[d.Name])}} :: old(inUse(ctx, d.Name, j)) ==> j in dom(ctx.Cache[d.Name])
    invariant ctxOK(ctx) && d.Name in dom(ctx.Cache)
  loop 2
    invariant 0 <= i
    invariant forall j int64 {{j in dom(ctx.Cache[d.Name])}} :: j in dom(ctx.Cache[d.Name]) && !(d.Start <= j && j < d.Start + i) ==> old(inUse(ctx, d.Name, j))
    invariant forall j int64 {{j in dom(ctx.Cache[d.Name])}} :: d.Start <= j && j < d.Start + i ==> j in dom(ctx.Cache[d.Name])
    invariant forall j int64 {{j in dom(ctx.Cache[d.Name])}} :: old(inUse(ctx, d.Name, j)) ==> j in dom(ctx.Cache[d.Name])
    invariant ctxOK(ctx) && d.Name in dom(ctx.Cache)
  ensures [off] !d.Materialize ==> (forall j int64 :: inUse(ctx, d.Name, j) <==> old(inUse(ctx, d.Name, j)))
  ensures [keeps] forall j int64 :: old(inUse(ctx, d.Name, j)) ==> inUse(ctx, d.Name, j)
  ensures [all] d.Materialize && d.Kind != "interval" && old(setLen(ctx, d.Name)) < d.Limit && (d.Kind == "nominal" || d.Kind == "ordinal" || d.Kind == "rotational") ==> forall j int64 :: 0 <= j && j < d.Limit ==> inUse(ctx, d.Name, j)
  ensures [interval] d.Materialize && d.Kind == "interval" && old(setLen(ctx, d.Name)) < d.Limit ==> forall j int64 :: d.Start <= j && j < d.Start + d.Limit ==> inUse(ctx, d.Name, j)
  ensures [ctx] ctxOK(ctx) && (d.Materialize ==> d.Name in dom(ctx.Cache))
  ensures [keep] forall n string {{ctx.Cache[n]}} :: !d.Materialize || n != d.Name ==> (n in dom(ctx.Cache) <==> old(n in dom(ctx.Cache))) && ctx.Cache[n] == old(ctx.Cache[n])
  ensures [same] !d.Materialize ==> forall m map[int64]bool, j int64 {{m[j]}} :: old(allocated(m)) ==> (j in dom(m) <==> old(j in dom(m))) && m[j] == old(m[j]) && len(m) == old(len(m))

func (*SymmetryDomain).getExtremeOrFresh
  props C04
  requires [ctx] typeis(tlocal(thread, "symmetry_context"), *SymmetryContext) && ctxOK(sctx(thread))
  requires [used] forall n string {{sctx(thread).Cache[n]}} :: n in dom(sctx(thread).Cache) ==> usedOK(sctx(thread).Cache[n])
  requires [distinct] forall n string {{sctx(thread).Cache[n]}} :: n in dom(sctx(thread).Cache) && n != d.Name ==> sctx(thread).Cache[n] != sctx(thread).Cache[d.Name]
  requires [rot] d.Kind == "rotational" ==> d.Limit >= 2 && (d.Name in dom(sctx(thread).LastAllocated) ==> 0 <= sctx(thread).LastAllocated[d.Name] && sctx(thread).LastAllocated[d.Name] < d.Limit)
  requires [kind] d.Kind == "nominal" || d.Kind == "ordinal" || d.Kind == "interval" || d.Kind == "rotational"
  requires [mat] !d.Materialize
  modifies map(sctx(thread).Cache), map(sctx(thread).Cache[d.Name]), map(sctx(thread).LastAllocated), every("starlark.Value"), every("int"), every("bool"), every("string")
  loop 1
    invariant first <==> !(exists j int64 {{j in $seen}} :: j in $seen)
    invariant !first ==> result in $seen && result in dom(ctx.Cache[d.Name])
    invariant forall j int64 {{j in $seen}} :: j in $seen ==> ite(findMax, j <= result, result <= j)
  ensures [domain] result1 == nil ==> typeis(result0, *SymmetricValue) && (let v := result0.(*SymmetricValue) :: v != nil && v.prefix == d.Name && v.Kind == d.Kind && (d.Kind == "rotational" ==> v.Limit == d.Limit))
  ensures [used] result1 == nil ==> let v := result0.(*SymmetricValue) :: inUse(sctx(thread), d.Name, v.id)
  ensures [extreme] result1 == nil && old(setLen(sctx(thread), d.Name)) > 0 ==> let v := result0.(*SymmetricValue) :: forall j int64 :: inUse(sctx(thread), d.Name, j) ==> ite(findMax, j <= v.id, v.id <= j)
  ensures [same] old(setLen(sctx(thread), d.Name)) > 0 ==> forall j int64 :: inUse(sctx(thread), d.Name, j) <==> old(inUse(sctx(thread), d.Name, j))

func (*SymmetricValue).CompareSameType
  props C04 C05
  requires typeis(y_, *SymmetricValue) && y_.(*SymmetricValue) != nil
  modifies nothing
  ensures [domains] s.prefix != y_.(*SymmetricValue).prefix ==> result1 != nil
  ensures [unordered] (s.Kind == "nominal" || s.Kind == "rotational") && op != syntax.EQL && op != syntax.NEQ ==> result1 != nil
  ensures [same] result1 == nil && op == syntax.EQL ==> (result0 <==> s.id == y_.(*SymmetricValue).id)

func symmetricValueEqual
  props C04 C05
  modifies nothing
  ensures result <==> s.prefix == y.prefix && s.id == y.id

func modPositive
  props C04
  requires m > 0 && a > -4611686018427387904 && a < 4611686018427387904 && m < 4611686018427387904
  modifies nothing
  ensures [range] 0 <= result && result < m
  ensures [congruent] result == ite(a % m < 0, a % m + m, a % m)
