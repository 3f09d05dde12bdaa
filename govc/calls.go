package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func originFn(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

func contractKey(f *ssa.Function) (string, string) {
	f = originFn(f)
	full := f.RelString(nil)
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path() + "::" + f.RelString(f.Pkg.Pkg), full
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path() + "::" + f.RelString(o.Pkg()), full
	}
	return full, full
}

func (x *Exec) contractFor(f *ssa.Function) *Contract {
	k, full := contractKey(f)
	if c := x.specs.Contracts[k]; c != nil {
		return c
	}
	return x.specs.Contracts[full]
}

func (x *Exec) call(fr *Frame, st *State, g *Term, c *ssa.CallCommon, instr *ssa.Call, pos token.Pos) (Value, *Term) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	if c.IsInvoke() {
		recv := x.term(x.val(fr, st, c.Value))
		return x.invoke(fr, st, g, c, recv, args, pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, g, b, c, args, pos), g
	}
	fn := x.val(fr, st, c.Value)
	return x.callValue(fr, st, g, fn, c, args, pos, instr)
}

func (x *Exec) callValue(fr *Frame, st *State, g *Term, fn Value, c *ssa.CallCommon, args []Value, pos token.Pos, instr *ssa.Call) (Value, *Term) {
	if c.IsInvoke() {
		return x.invoke(fr, st, g, c, x.term(fn), args, pos)
	}
	cl, ok := fn.(*Closure)
	if !ok {
		// a function value with an assumed contract "extern func.NAME"
		if con := x.specs.Contracts["func."+funcValueName(c.Value)]; con != nil {
			var tys []types.Type
			for _, a := range c.Args {
				tys = append(tys, a.Type())
			}
			return x.contractCall(fr, st, g, c.Signature(), con, nil, args, tys, pos)
		}
		return x.unknownCall(st, g, c, args, "function value at "+x.pos(pos), c.Signature())
	}
	var tys []types.Type
	for _, a := range c.Args {
		tys = append(tys, a.Type())
	}
	return x.callFn(fr, st, g, cl.fn, cl.free, args, tys, pos, c)
}

func inList(l []string, f *ssa.Function) bool {
	k, full := contractKey(f)
	if i := strings.Index(k, "::"); i >= 0 {
		k = k[i+2:]
	}
	for _, s := range l {
		if s == k || s == full || s == f.Name() {
			return true
		}
	}
	return false
}

func (x *Exec) callFn(fr *Frame, st *State, g *Term, f *ssa.Function, free []Value, args []Value, tys []types.Type, pos token.Pos, c *ssa.CallCommon) (Value, *Term) {
	con := x.contractFor(f)
	forceInline := inList(x.con.Inline, f)
	if con != nil && !forceInline {
		// recursion through the function being verified: its own contract
		return x.contractCall(fr, st, g, f.Signature, con, f, args, tys, pos)
	}
	recursive := false
	for _, s := range x.stack {
		if s == f {
			recursive = true
		}
	}
	pk := f.Pkg
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Pkg
	}
	if pk == nil && f.Parent() != nil {
		pk = f.Parent().Pkg
	}
	inRepo := pk != nil && repoPkgs[pk.Pkg.Path()] || f.Synthetic != "" && len(f.Blocks) > 0
	if len(f.Blocks) > 0 && inRepo && !recursive && fr.depth < 16 && !inList(x.con.Opaque, f) {
		return x.inline(fr, st, g, f, free, args, pos)
	}
	return x.externCall(st, g, f, args, pos)
}

func (x *Exec) inline(fr *Frame, st *State, g *Term, f *ssa.Function, free []Value, args []Value, pos token.Pos) (Value, *Term) {
	x.inlined[f.RelString(nil)] = true
	nf := x.newFrame(f, fr)
	for i, p := range f.Params {
		if i < len(args) {
			nf.regs[p] = args[i]
		}
	}
	for i, v := range f.FreeVars {
		if i < len(free) {
			nf.regs[v] = free[i]
		}
	}
	nf.entryState = st
	x.stack = append(x.stack, f)
	exits := x.runBody(nf, st.clone(), g)
	x.stack = x.stack[:len(x.stack)-1]
	var es []edge
	for _, e := range exits {
		if e.guard.Op != "false" {
			es = append(es, edge{nil, e.guard, e.st})
		}
	}
	if len(es) == 0 {
		// does not return (panics)
		return x.freshResults(f.Signature, st), False()
	}
	live := exits[:0:0]
	for _, e := range exits {
		if e.guard.Op != "false" {
			live = append(live, e)
		}
	}
	ms, mg := mergeStates(es)
	*st = *ms
	n := f.Signature.Results().Len()
	res := make(Tuple, n)
	for j := 0; j < n; j++ {
		acc, ag := live[0].results[j], live[0].guard
		for _, e := range live[1:] {
			acc = mergeVal(splitCond(ag, e.guard), acc, e.results[j])
			ag = Or(ag, e.guard)
		}
		res[j] = acc
	}
	if n == 1 {
		return res[0], mg
	}
	return res, mg
}

func (x *Exec) freshResults(sig *types.Signature, st *State) Value {
	n := sig.Results().Len()
	res := make(Tuple, n)
	for j := 0; j < n; j++ {
		t := sig.Results().At(j).Type()
		v := Fresh("res", sortOf(t))
		x.assume(True(), wt(v, t, st.alloc, 0), "typing")
		res[j] = v
	}
	if n == 1 {
		return res[0]
	}
	return res
}

var purePkgs = []string{"fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln", "fmt.Errorf", "fmt.Print", "fmt.Fprint", "strings.", "strconv.", "errors.", "math.", "unicode.", "github.com/golang/glog.",
	"(time.", "time.", "log.", "path/filepath.", "(reflect.", "reflect.", "(*strings.Builder)", "(*bytes.Buffer)", "bytes.", "google.golang.org/protobuf/", "(google.golang.org/protobuf/"}

func (x *Exec) escapeClosures(st *State, args []Value) {
	for _, a := range args {
		cl, ok := a.(*Closure)
		if !ok {
			continue
		}
		for _, f := range cl.free {
			if ad, ok := f.(*Addr); ok && ad.kind == aLocal {
				if t, ok := st.cells[ad.cell].(*Term); ok {
					x.setCell(st, ad.cell, Fresh("escaped", t.Sort))
				}
			}
		}
	}
}

func (x *Exec) externCall(st *State, g *Term, f *ssa.Function, args []Value, pos token.Pos) (Value, *Term) {
	full := originFn(f).RelString(nil)
	for _, p := range purePkgs {
		if strings.HasPrefix(full, p) {
			x.note("external %s: result unconstrained, no effect on modelled state (assumed)", full)
			x.escapeClosures(st, args)
			return x.detResults(full, f.Signature, st, args), g
		}
	}
	x.note("unmodelled call %s: havoc of the whole state", full)
	return x.unknownCallSig(st, g, args, f.Signature)
}

// detResults: results are a function of the arguments when these are plain values.
func (x *Exec) detResults(key string, sig *types.Signature, st *State, args []Value) Value {
	var ts []*Term
	det := true
	for _, a := range args {
		t, ok := a.(*Term)
		if !ok || t.Sort == SSlice || t.Sort == SAny {
			det = false
			break
		}
		ts = append(ts, t)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		switch sig.Params().At(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Map:
			det = false
		}
	}
	if sig.Recv() != nil {
		det = false
	}
	n := sig.Results().Len()
	for j := 0; j < n; j++ {
		switch sig.Results().At(j).Type().Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			det = false
		}
	}
	if !det || len(ts) == 0 {
		a0 := st.alloc
		st.alloc = Fresh("alloc", SInt)
		x.log.setAlloc()
		x.assume(True(), Le(a0, st.alloc), "allocation grows")
		return x.freshResults(sig, st)
	}
	res := make(Tuple, n)
	for j := 0; j < n; j++ {
		t := sig.Results().At(j).Type()
		v := App(fmt.Sprintf("ext$%s$%d", key, j), sortOf(t), ts...)
		x.assume(True(), wt(v, t, st.alloc, 0), "typing")
		res[j] = v
	}
	if n == 1 {
		return res[0]
	}
	return res
}

func (x *Exec) unknownCall(st *State, g *Term, c *ssa.CallCommon, args []Value, what string, sig *types.Signature) (Value, *Term) {
	x.note("unknown call (%s): havoc of the whole state", what)
	return x.unknownCallSig(st, g, args, sig)
}

func (x *Exec) unknownCallSig(st *State, g *Term, args []Value, sig *types.Signature) (Value, *Term) {
	x.havocAll(st)
	x.escapeClosures(st, args)
	return x.freshResults(sig, st), g
}

func (x *Exec) havocAll(st *State) {
	st.epoch = newEpoch()
	// immutable facts about ghost state are lost too
	st.heaps = map[string]*Term{}
	a0 := st.alloc
	st.alloc = Fresh("alloc", SInt)
	x.assume(True(), Le(a0, st.alloc), "allocation grows")
	x.log.setAll()
}

func (x *Exec) paramSVs(sig *types.Signature, con *Contract, args []Value, tys []types.Type) (map[string]SV, []string) {
	vars := map[string]SV{}
	var names []string
	var ptys []types.Type
	if sig.Recv() != nil {
		n := sig.Recv().Name()
		if n == "" || n == "_" {
			n = "self"
		}
		names = append(names, n)
		ptys = append(ptys, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		n := sig.Params().At(i).Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		names = append(names, n)
		ptys = append(ptys, sig.Params().At(i).Type())
	}
	// invoked interface methods pass the receiver explicitly
	if len(args) == len(names)+1 {
		names = append([]string{"self"}, names...)
		ptys = append([]types.Type{nil}, ptys...)
	}
	for i, a := range args {
		if i >= len(names) {
			break
		}
		var ty types.Type
		if i < len(tys) && tys[i] != nil {
			ty = tys[i]
		} else {
			ty = ptys[i]
		}
		// the parameter's type decides (argument may be nil constant typed already)
		if ptys[i] != nil && !hasTypeParam(ptys[i]) {
			ty = ptys[i]
		}
		sv := SV{Ty: ty}
		if t, ok := a.(*Term); ok {
			sv.T = t
		} else {
			sv.V = a
		}
		vars[names[i]] = sv
		if con != nil && i < len(con.Params) {
			vars[con.Params[i]] = sv
		}
		vars[fmt.Sprintf("$%d", i)] = sv
	}
	return vars, names
}

func hasTypeParam(t types.Type) bool {
	return strings.Contains(fmt.Sprintf("%T", t), "TypeParam") || containsTP(t, 0)
}
func containsTP(t types.Type, d int) bool {
	if d > 5 {
		return false
	}
	switch u := types.Unalias(t).(type) {
	case *types.TypeParam:
		return true
	case *types.Pointer:
		return containsTP(u.Elem(), d+1)
	case *types.Slice:
		return containsTP(u.Elem(), d+1)
	case *types.Map:
		return containsTP(u.Key(), d+1) || containsTP(u.Elem(), d+1)
	case *types.Named:
		if u.TypeArgs() != nil {
			for i := 0; i < u.TypeArgs().Len(); i++ {
				if containsTP(u.TypeArgs().At(i), d+1) {
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) pkgOf(con *Contract) *types.Package {
	if p, ok := pkgByPath[con.Pkg]; ok {
		return p
	}
	return nil
}

var pkgByPath = map[string]*types.Package{}

func (x *Exec) resultSVs(sig *types.Signature, con *Contract, res Tuple, vars map[string]SV) {
	for j := 0; j < sig.Results().Len(); j++ {
		rv := sig.Results().At(j)
		sv := SV{Ty: rv.Type()}
		if t, ok := res[j].(*Term); ok {
			sv.T = t
		} else {
			sv.V = res[j]
		}
		if rv.Name() != "" && rv.Name() != "_" {
			vars[rv.Name()] = sv
		}
		vars[fmt.Sprintf("result%d", j)] = sv
		if j == 0 {
			vars["result"] = sv
		}
		if con != nil && j < len(con.Results) {
			vars[con.Results[j]] = sv
		}
	}
}

// contractCall: the caller sees only the contract.
func (x *Exec) contractCall(fr *Frame, st *State, g *Term, sig *types.Signature, con *Contract, f *ssa.Function, args []Value, tys []types.Type, pos token.Pos) (Value, *Term) {
	key := con.Key
	x.used[contractName(con)] = true
	vars, _ := x.paramSVs(sig, con, args, tys)
	tsub := typeSubst(f)
	old := st.clone()
	env := &Env{x: x, cur: st, old: old, vars: vars, ovars: vars, pkg: x.pkgOf(con), fresh0: st.alloc, tsub: tsub}
	for i, c := range con.Requires {
		lb := c.Label
		if lb == "" {
			lb = fmt.Sprint(i + 1)
		}
		t := env.evalBool(c.Ex)
		if con.Panics {
			x.assume(g, t, "precondition of "+key+" (panics otherwise)")
			continue
		}
		x.oblige("pre", fmt.Sprintf("call %s/requires/%s@%s", key, lb, x.pos(pos)), c.Text, pos, g, t, nil)
		x.assume(g, t, "precondition of "+key)
	}
	if x.top != nil && x.oncall != nil {
		for i, c := range x.con.OnCall {
			if !strings.HasSuffix(key, c.Name) {
				continue
			}
			lb := c.Label
			if lb == "" {
				lb = fmt.Sprint(i + 1)
			}
			x.oncall[i] = true
			all := map[string]SV{}
			for k, v := range x.top.params {
				all[k] = v
			}
			for k, v := range vars {
				all[k] = v
			}
			e := &Env{x: x, cur: st, old: x.top.entryState, vars: all, ovars: all, pkg: x.pkgOf(x.top.con), fresh0: x.top.entryState.alloc, tsub: typeSubst(x.top.fn)}
			t := e.evalBool(c.Ex)
			x.oblige("pre", fmt.Sprintf("oncall %s/%s@%s", c.Name, lb, x.pos(pos)), c.Text, pos, g, t, nil)
			if strings.HasPrefix(lb, "lemma") { // a cut: proved here, used by what follows
				x.assume(g, t, "lemma at a call of "+key)
			}
		}
	}
	// termination of recursion
	if f != nil && x.top != nil && originFn(f) == originFn(x.top.fn) {
		x.recursionCheck(fr, st, g, con, vars, pos)
	}
	items := env.modItems(con.Modifies)
	if con.ModAll || (!con.HasMod && !con.Pure && !con.Extern) && con.NoFrame {
		x.havocAll(st)
	} else if con.ModAll {
		x.havocAll(st)
	} else {
		for _, it := range items {
			srt := C.heapSorts[it.heap]
			h := st.heap(it.heap, srt)
			if it.glob || it.ref == nil {
				x.setHeap(st, it.heap, Fresh(it.heap, srt), nil)
				continue
			}
			_, es := arrParts(srt)
			x.setHeap(st, it.heap, Store(h, it.ref, Fresh(it.heap+".mod", es)), it.ref)
		}
		if !con.Pure && !con.NoAlloc {
			a0 := st.alloc
			st.alloc = Fresh("alloc", SInt)
			x.log.setAlloc()
			x.assume(True(), Le(a0, st.alloc), "allocation grows")
		}
	}
	x.escapeClosures(st, args)
	var res Tuple
	n := sig.Results().Len()
	if con.Pure {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, x.term(a))
		}
		for j := 0; j < n; j++ {
			t := sig.Results().At(j).Type()
			var v *Term
			if len(ts) == 0 {
				v = Const(fmt.Sprintf("pure$%s$%d", key, j), sortOf(t))
			} else {
				nm := fmt.Sprintf("pure$%s$%d", key, j)
				for _, a := range ts {
					if strings.HasPrefix(string(a.Sort), "TP_") {
						nm += "$" + string(a.Sort)
					}
				}
				v = App(nm, sortOf(t), ts...)
			}
			x.assume(True(), wt(v, t, st.alloc, 0), "typing")
			res = append(res, v)
		}
	} else {
		r := x.freshResults(sig, st)
		if n == 1 {
			res = Tuple{r}
		} else {
			res = r.(Tuple)
		}
	}
	post := map[string]SV{}
	for k, v := range vars {
		post[k] = v
	}
	x.resultSVs(sig, con, res, post)
	penv := &Env{x: x, cur: st, old: old, vars: post, ovars: vars, pkg: x.pkgOf(con), fresh0: old.alloc, tsub: tsub}
	for _, c := range con.Ensures {
		x.assume(g, penv.evalBool(c.Ex), "postcondition of "+key)
	}
	if n == 1 {
		return res[0], g
	}
	return res, g
}

func contractName(c *Contract) string {
	if c.Extern {
		return c.Key
	}
	return c.Pkg + "::" + c.Key
}

func typeSubst(f *ssa.Function) map[string]types.Type {
	m := map[string]types.Type{}
	if f == nil {
		return m
	}
	o := f.Origin()
	tps := f.TypeParams()
	if o != nil {
		tps = o.TypeParams()
		for i, a := range f.TypeArgs() {
			if tps != nil && i < tps.Len() {
				m[tps.At(i).Obj().Name()] = a
			}
		}
		return m
	}
	if tps != nil {
		for i := 0; i < tps.Len(); i++ {
			m[tps.At(i).Obj().Name()] = tps.At(i)
		}
	}
	return m
}

func (x *Exec) recursionCheck(fr *Frame, st *State, g *Term, con *Contract, vars map[string]SV, pos token.Pos) {
	if con.Decreases == nil {
		x.oblige("term", "recursion@"+x.pos(pos), "recursive call with no decreasing measure", pos, g, False(), nil)
		return
	}
	e1 := &Env{x: x, cur: st, old: st, vars: vars, ovars: vars, pkg: x.pkgOf(con)}
	e0 := &Env{x: x, cur: x.top.entryState, old: x.top.entryState, vars: x.top.params, ovars: x.top.params, pkg: x.pkgOf(con)}
	m1, m0 := e1.eval(con.Decreases.Ex).T, e0.eval(con.Decreases.Ex).T
	x.oblige("term", "recursion@"+x.pos(pos), "measure decreases: "+con.Decreases.Text, pos, g, And(Le(Int(0), m0), Lt(m1, m0)), nil)
}

// ---- interface method calls ----

func (x *Exec) invoke(fr *Frame, st *State, g *Term, c *ssa.CallCommon, recv *Term, args []Value, pos token.Pos) (Value, *Term) {
	m := c.Method
	if x.con.NoPanic {
		x.oblige("safety", "nil-iface/"+m.Name()+"@"+x.pos(pos), "method call on nil interface", pos, g, Not(Eq(recv, NilAny())), nil)
	}
	x.assume(g, Not(Eq(recv, NilAny())), "non-nil interface")
	sig := m.Type().(*types.Signature)
	// known dynamic type
	if isCtorApp(recv) && recv.Op != "nilI" {
		for _, b := range C.boxes {
			if b.Ctor == recv.Op {
				if f := x.prog.LookupMethod(b.Type, m.Pkg(), m.Name()); f != nil {
					tys := []types.Type{b.Type}
					for _, a := range c.Args {
						tys = append(tys, a.Type())
					}
					return x.callFn(fr, st, g, f, nil, append([]Value{recv.Args[0]}, args...), tys, pos, c)
				}
			}
		}
	}
	var es []edge
	var vals []Value
	rest := g
	env := &Env{x: x, cur: st, old: st, pkg: x.pkgOf(x.con)}
	it, _ := c.Value.Type().Underlying().(*types.Interface)
	for _, tt := range x.con.Dispatch {
		ty := env.resolveType(tt)
		if it == nil || !types.Implements(ty, it) {
			continue
		}
		f := x.prog.LookupMethod(ty, m.Pkg(), m.Name())
		if f == nil {
			continue
		}
		is := IsBox(ty, recv)
		if is.Op == "false" {
			continue
		}
		s1 := st.clone()
		g1 := And(rest, is)
		rest = And(rest, Not(is))
		v := Unbox(ty, recv)
		x.assume(g1, wt(v, ty, st.alloc, 0), "typing")
		tys := []types.Type{ty}
		for _, a := range c.Args {
			tys = append(tys, a.Type())
		}
		r, g2 := x.callFn(fr, s1, g1, f, nil, append([]Value{v}, args...), tys, pos, c)
		es = append(es, edge{nil, g2, s1})
		vals = append(vals, r)
	}
	key := ""
	if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			key = "(" + n.Obj().Pkg().Path() + "." + n.Obj().Name() + ")." + m.Name()
		} else {
			key = "(" + n.Obj().Name() + ")." + m.Name()
		}
	}
	con := x.specs.Contracts[key]
	if con == nil {
		con = x.specs.Contracts["(*)."+m.Name()]
	}
	var r Value
	s1 := st
	if len(es) > 0 {
		s1 = st.clone()
	}
	var g2 *Term
	if con != nil {
		tys := []types.Type{c.Value.Type()}
		for _, a := range c.Args {
			tys = append(tys, a.Type())
		}
		nsig := types.NewSignatureType(types.NewVar(0, nil, "self", c.Value.Type()), nil, nil, sig.Params(), sig.Results(), sig.Variadic())
		r, g2 = x.contractCall(fr, s1, rest, nsig, con, nil, append([]Value{recv}, args...), tys, pos)
	} else {
		x.note("unmodelled interface call %s: havoc of the whole state", key)
		r, g2 = x.unknownCallSig(s1, rest, args, sig)
	}
	if len(es) == 0 {
		return r, g2
	}
	es = append(es, edge{nil, g2, s1})
	vals = append(vals, r)
	var es2 []edge
	var vs2 []Value
	for i, e := range es {
		if e.guard.Op != "false" {
			es2 = append(es2, e)
			vs2 = append(vs2, vals[i])
		}
	}
	if len(es2) == 0 {
		return r, False()
	}
	ms, mg := mergeStates(es2)
	acc, ag := vs2[0], es2[0].guard
	for i := 1; i < len(es2); i++ {
		acc = mergeVal(splitCond(ag, es2[i].guard), acc, vs2[i])
		ag = Or(ag, es2[i].guard)
	}
	*st = *ms
	return acc, mg
}

// ---- builtins ----

func (x *Exec) builtin(fr *Frame, st *State, g *Term, b *ssa.Builtin, c *ssa.CallCommon, args []Value, pos token.Pos) Value {
	switch b.Name() {
	case "len", "cap":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			s := x.term(args[0])
			if b.Name() == "len" {
				return SLen(s)
			}
			return SCap(s)
		case *types.Map:
			return x.mapLen(st, u, x.term(args[0]))
		case *types.Array:
			return Int(u.Len())
		case *types.Pointer:
			return Int(u.Elem().Underlying().(*types.Array).Len())
		case *types.Basic:
			v := StrLen(x.term(args[0]))
			x.assume(True(), Le(Int(0), v), "typing")
			return v
		}
	case "append":
		return x.appendB(st, g, c.Args[0].Type().Underlying().(*types.Slice).Elem(), x.term(args[0]), x.term(args[1]), c.Args[1].Type())
	case "copy":
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		d, s := x.term(args[0]), x.term(args[1])
		if s.Sort == SStr {
			panic(unsupported("copy from string"))
		}
		n := Ite(Le(SLen(d), SLen(s)), SLen(d), SLen(s))
		h, srt := elemHeap(el)
		H := st.heap(h, srt)
		da, sa := Select(H, SArr(d)), Select(H, SArr(s))
		na := Fresh("copied", arrSort(SInt, sortOf(el)))
		j := BoundVar("j", SInt)
		nj := Select(na, j)
		x.assume(True(), Forall([]*Term{j}, Eq(nj, Ite(And(Le(SOff(d), j), Lt(j, Add(SOff(d), n))), Select(sa, Add(Sub(j, SOff(d)), SOff(s))), Select(da, j))), []*Term{nj}), "copy")
		x.setHeap(st, h, Ite(Eq(SArr(d), Int(0)), H, Store(H, SArr(d), na)), SArr(d))
		return n
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		m := x.term(args[0])
		// delete on a nil map is a no-op; the nil reference is never read as a map
		x.mapDelete(st, mt, m, x.term(args[1]))
		return Tuple{}
	case "clear":
		if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			m := x.term(args[0])
			x.initMap(st, mt, m)
			return Tuple{}
		}
	case "min", "max":
		acc := x.term(args[0])
		for _, a := range args[1:] {
			t := x.term(a)
			if b.Name() == "min" {
				acc = Ite(Le(acc, t), acc, t)
			} else {
				acc = Ite(Ge(acc, t), acc, t)
			}
		}
		return acc
	case "print", "println":
		return Tuple{}
	case "ssa:wrapnilchk":
		return args[0]
	case "ssa:deferstack":
		return Int(0)
	case "recover":
		return NilAny()
	case "close":
		return Tuple{}
	}
	panic(unsupported("builtin " + b.Name()))
}

func (x *Exec) appendB(st *State, g *Term, el types.Type, s, t *Term, tty types.Type) Value {
	if t.Sort == SStr {
		panic(unsupported("append of string"))
	}
	h, srt := elemHeap(el)
	H := st.heap(h, srt)
	n := SLen(t)
	if v, ok := intVal(n); ok && v.Sign() == 0 {
		return s
	}
	src := Select(H, SArr(s))
	var content *Term
	if v, ok := intVal(n); ok && v.IsInt64() && v.Int64() <= 32 {
		content = src
		ta := Select(H, SArr(t))
		for i := int64(0); i < v.Int64(); i++ {
			content = Store(content, Add(Add(SOff(s), SLen(s)), Int(i)), Select(ta, Add(SOff(t), Int(i))))
		}
	} else {
		content = Fresh("appended", arrSort(SInt, sortOf(el)))
		ta := Select(H, SArr(t))
		j := BoundVar("j", SInt)
		cj := Select(content, j)
		base := Add(SOff(s), SLen(s))
		x.assume(True(), Forall([]*Term{j}, Eq(cj, Ite(And(Le(base, j), Lt(j, Add(base, n))), Select(ta, Add(Sub(j, base), SOff(t))), Select(src, j))), []*Term{cj}), "append")
	}
	fits := Le(Add(SLen(s), n), SCap(s))
	r := st.alloc
	nonempty := Lt(Int(0), n)
	if v, ok := intVal(n); ok && v.Sign() > 0 {
		nonempty = True()
	}
	ncap := Fresh("cap", SInt)
	x.assume(True(), Le(Add(SLen(s), n), ncap), "append")
	st.alloc = Ite(And(Not(fits), nonempty), Add(st.alloc, Int(1)), st.alloc)
	x.log.setAlloc()
	// growth: always bump the counter so that later references stay distinct
	st.alloc = Add(r, Int(1))
	arr := Ite(fits, SArr(s), r)
	nh := Store(H, arr, content)
	nh = Ite(nonempty, nh, H)
	C.heapSorts[h] = nh.Sort
	st.heaps[h] = nh
	// written bases: the old array (when it fits) or the new one
	if fits.Op != "false" {
		x.log.heap(h, SArr(s))
	}
	if fits.Op != "true" {
		x.log.heap(h, r)
	}
	res := MkSlice(arr, SOff(s), Add(SLen(s), n), Ite(fits, SCap(s), ncap))
	return Ite(nonempty, res, s)
}

// funcValueName is the source name of the variable a function value is called through.
func funcValueName(v ssa.Value) string {
	switch u := v.(type) {
	case *ssa.Parameter:
		return u.Name()
	case *ssa.FreeVar:
		return u.Name()
	case *ssa.UnOp:
		return funcValueName(u.X)
	case *ssa.Alloc:
		return u.Comment
	}
	return ""
}
