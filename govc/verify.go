package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FuncResult struct {
	Name    string
	Props   []string
	Obls    []*Obligation
	Notes   []string
	Used    []string
	Inlined []string
	Error   string
	Dropped []string // invariant candidates dropped
	Pos     string
	Cover   string
	Pool    bool
	VcMs    int64
	Missing bool
}

func (x *Exec) topMods() []modItem {
	env := &Env{x: x, cur: x.top.entryState, old: x.top.entryState, vars: x.top.params, ovars: x.top.params, pkg: x.pkgOf(x.con)}
	env.tsub = typeSubst(x.top.fn)
	return env.modItems(x.con.Modifies)
}

func (x *Exec) loopEnv(fr *Frame, li *loopInfo, st *State) *Env {
	e := &Env{x: x, cur: st, old: x.top.entryState, entry: li.entry, pkg: x.pkgOf(x.con), li: li, fr: fr, fresh0: x.top.entryState.alloc}
	if fr == x.top || fr.params != nil {
		e.vars = fr.params
		e.ovars = fr.params
	}
	if fr != x.top {
		e.ovars = x.top.params
	}
	e.tsub = typeSubst(fr.fn)
	e.local = func(name string, st *State) (SV, bool) { return x.localVar(fr, li, name, st) }
	return e
}

func (x *Exec) localVar(fr *Frame, li *loopInfo, name string, st *State) (SV, bool) {
	var best *ssa.Alloc
	for _, b := range fr.fn.Blocks {
		for _, ins := range b.Instrs {
			a, ok := ins.(*ssa.Alloc)
			if !ok || a.Comment != name {
				continue
			}
			if _, have := fr.regs[a]; !have {
				continue
			}
			if li != nil && !b.Dominates(li.header) {
				continue
			}
			if li != nil && li.blocks[b] {
				continue
			}
			if best == nil || a.Pos() > best.Pos() {
				best = a
			}
		}
	}
	if best == nil {
		// captured variable
		for _, fv := range fr.fn.FreeVars {
			if fv.Name() == name {
				if r, ok := fr.regs[fv]; ok {
					return x.addrSV(r, deref(fv.Type()), st), true
				}
			}
		}
		return SV{}, false
	}
	return x.addrSV(fr.regs[best], deref(best.Type()), st), true
}

func (x *Exec) addrSV(r Value, el types.Type, st *State) SV {
	switch a := r.(type) {
	case *Addr:
		v := x.rootTerm(st, a)
		if t, ok := v.(*Term); ok {
			for _, s := range a.path {
				if s.ix != nil {
					t = Select(t, s.ix)
				} else {
					t = Field(s.structT, t, s.idx)
				}
			}
			return SV{T: t, Ty: el}
		}
		return SV{V: v, Ty: el}
	case *Term:
		e := &Env{x: x, cur: st}
		return SV{T: e.loadObj(a, el), Ty: el}
	}
	return SV{V: r, Ty: el}
}

// genVC runs the symbolic execution of one function under contract and collects its obligations.
func genVC(prog *ssa.Program, specs *Specs, con *Contract, f *ssa.Function, disabled map[string]bool, pool bool) (x *Exec, err error) {
	C = newCtx()
	x = &Exec{prog: prog, specs: specs, con: con, disabled: disabled, notes: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}, pool: pool, oncall: map[int]bool{}}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsup:
				err = fmt.Errorf("unsupported: %s", e.msg)
			case specErr:
				err = fmt.Errorf("contract: %s", e.msg)
			default:
				err = fmt.Errorf("internal: %v", r)
				if opt := os.Getenv("GOVC_DBG"); opt != "" {
					panic(r)
				}
			}
		}
	}()
	st := &State{cells: map[cellKey]Value{}, heaps: map[string]*Term{}}
	st.alloc = Const("alloc0", SInt)
	x.assume(True(), Le(Int(1), st.alloc), "allocation")
	fr := x.newFrame(f, nil)
	x.top = fr
	fr.con = con
	sig := f.Signature
	var args []Value
	for i, p := range f.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		v := Const("in$"+n, sortOf(p.Type()))
		x.assume(True(), wt(v, p.Type(), st.alloc, 0), "typing of "+n)
		fr.regs[p] = v
		args = append(args, v)
	}
	for _, fv := range f.FreeVars {
		v := Const("free$"+fv.Name(), sortOf(fv.Type()))
		x.assume(True(), And(Lt(Int(0), v), Lt(v, st.alloc)), "captured variable")
		fr.regs[fv] = v
	}
	vars, _ := x.paramSVs(sig, con, args, nil)
	if len(f.FreeVars) > 0 {
		for _, fv := range f.FreeVars {
			vars[fv.Name()] = SV{T: fr.regs[fv].(*Term), Ty: fv.Type()}
		}
	}
	for i, p := range f.Params {
		sv := SV{T: fr.regs[p].(*Term), Ty: p.Type()}
		if p.Name() != "" && p.Name() != "_" {
			vars[p.Name()] = sv
		}
		if i < len(con.Params) {
			vars[con.Params[i]] = sv
		}
	}
	fr.params = vars
	fr.entryState = st.clone()
	x.stack = []*ssa.Function{f}
	tsub := typeSubst(f)
	// axioms
	aenv := &Env{x: x, cur: fr.entryState, old: fr.entryState, pkg: x.pkgOf(con), tsub: tsub}
	x.addAxioms(aenv)
	renv := &Env{x: x, cur: st, old: st, vars: vars, ovars: vars, pkg: x.pkgOf(con), tsub: tsub}
	for _, c := range con.Requires {
		x.assume(True(), renv.evalBool(c.Ex), "requires "+c.Text)
	}
	// heaps first read by the requires clauses belong to the entry state too
	for k, v := range st.heaps {
		fr.entryState.heaps[k] = v
	}
	npre := len(x.assumps)
	x.obls = append(x.obls, &Obligation{Name: "cover/requires", Kind: "cover", nass: npre, Guard: True(), Goal: True(), Text: "the preconditions are satisfiable"})
	exits := x.runBody(fr, st, True())
	for i, c := range con.OnCall {
		if !x.oncall[i] {
			x.oblige("pre", "oncall "+c.Name+"/none", "there is a call of "+c.Name, f.Pos(), True(), False(), nil)
		}
	}
	var reach *Term = False()
	for _, e := range exits {
		reach = Or(reach, e.guard)
	}
	if !con.Panics || len(exits) > 0 {
		x.obls = append(x.obls, &Obligation{Name: "cover/exit", Kind: "cover", nass: len(x.assumps), Guard: True(), Goal: reach, Text: "some return is reachable"})
	}
	for ei, e := range exits {
		post := map[string]SV{}
		for k, v := range vars {
			post[k] = v
		}
		x.resultSVs(sig, con, Tuple(e.results), post)
		env := &Env{x: x, cur: e.st, old: fr.entryState, vars: post, ovars: vars, pkg: x.pkgOf(con), fresh0: fr.entryState.alloc, tsub: tsub}
		suffix := ""
		if len(exits) > 1 {
			suffix = fmt.Sprintf("@ret%d", ei+1)
		}
		// intermediate facts: proved at this return, then available to what follows
		for i, c := range con.Asserts {
			lb := c.Label
			if lb == "" {
				lb = fmt.Sprint(i + 1)
			}
			t := env.evalBool(c.Ex)
			x.oblige("post", "assert/"+lb+suffix, c.Text, e.pos, e.guard, t, nil)
			x.assume(e.guard, t, "assert "+c.Text)
		}
		for i, c := range con.Ensures {
			lb := c.Label
			if lb == "" {
				lb = fmt.Sprint(i + 1)
			}
			if len(con.Cases) == 0 {
				t := env.evalBool(c.Ex)
				x.oblige("post", "ensures/"+lb+suffix, c.Text, e.pos, e.guard, t, nil)
				if con.Chain {
					x.assume(e.guard, t, "proved before: "+lb)
				}
				continue
			}
			var all []*Term
			for ci, cc := range con.Cases {
				ct := env.evalBool(cc.Ex)
				all = append(all, ct)
				x.oblige("post", fmt.Sprintf("ensures/%s%s/case%d", lb, suffix, ci+1), c.Text, e.pos, And(e.guard, ct), env.evalBool(c.Ex), nil)
			}
			x.oblige("post", fmt.Sprintf("ensures/%s%s/casesplit", lb, suffix), "cases are exhaustive", e.pos, e.guard, Or(all...), nil)
		}
		if con.NoAlloc {
			x.oblige("frame", "noalloc"+suffix, "nothing is allocated", e.pos, e.guard, Eq(x.top.entryState.alloc, e.st.alloc), nil)
		}
		if !con.NoFrame && !con.ModAll {
			x.frameObls(e, con, suffix)
		}
	}
	return x, nil
}

func (x *Exec) addAxioms(env *Env) {
	for _, a := range x.specs.Axioms {
		a := a
		// only those whose ghost functions could matter: filtered at print time by reachability of symbols
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(specErr); ok {
						return
					}
					panic(r)
				}
			}()
			e := *env
			if p := pkgByPath[a.Pkg]; p != nil {
				e.pkg = p
			}
			t := e.evalBool(a.Ex)
			C.axioms = append(C.axioms, t)
		}()
	}
}

func (x *Exec) frameObls(e exit, con *Contract, suffix string) {
	if e.st.epoch != x.top.entryState.epoch {
		x.oblige("frame", "frame/everything"+suffix, "the function may only modify its modifies clause, but calls something unmodelled", e.pos, e.guard, False(), nil)
		return
	}
	items := x.topMods()
	for _, h := range sortedHeaps(e.st) {
		srt := C.heapSorts[h]
		before, after := x.top.entryState.heap(h, srt), e.st.heaps[h]
		if before == after {
			continue
		}
		if strings.HasPrefix(h, "G$") {
			ok := false
			for _, it := range items {
				if it.heap == h {
					ok = true
				}
			}
			if !ok {
				x.oblige("frame", "frame/"+h+suffix, "global unchanged", e.pos, e.guard, Eq(before, after), nil)
			}
			continue
		}
		f := x.frameFormula(h, srt, items, before, after, x.top.entryState.alloc)
		if f.Op == "true" {
			continue
		}
		x.oblige("frame", "frame/"+h+suffix, "only the modifies clause changes in "+h, e.pos, e.guard, f, nil)
	}
}

func (o *Obligation) build(x *Exec) {
	var as []*Term
	for _, a := range x.assumps[:o.nass] {
		as = append(as, a.t)
	}
	if o.Kind == "cover" {
		o.query = smtQuery(as, And(o.Guard, o.Goal))
		return
	}
	o.query = smtQuery(as, Not(Implies(o.Guard, o.Goal)))
}

// verifyFn proves one function, dropping loop-invariant candidates that are not inductive.
func verifyFn(prog *ssa.Program, specs *Specs, con *Contract, f *ssa.Function, opt Options) *FuncResult {
	name := shortName(con)
	res := &FuncResult{Name: name, Props: con.Props}
	if f != nil {
		p := prog.Fset.Position(f.Pos())
		res.Pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, "/repo/"), p.Line)
	}
	t0 := time.Now()
	run := func(pool bool) *FuncResult {
		r := *res
		disabled := map[string]bool{}
		for round := 0; round < 8; round++ {
			x, err := genVC(prog, specs, con, f, disabled, pool)
			if err != nil {
				r.Error = err.Error()
				return &r
			}
			r.Pool = pool
			r.Notes, r.Used, r.Inlined = keys(x.notes), keys(x.used), keys(x.inlined)
			for _, o := range x.obls {
				o.Func = name
				o.Props = con.Props
			}
			// invariants first
			var inv, rest []*Obligation
			for _, o := range x.obls {
				if o.Cand != nil {
					inv = append(inv, o)
				} else {
					rest = append(rest, o)
				}
			}
			for _, o := range inv {
				o.build(x)
			}
			if round == 0 {
				// optimistic: everything at once
				for _, o := range rest {
					o.build(x)
				}
				solveAll(append(append([]*Obligation{}, inv...), rest...), opt)
			} else {
				solveAll(inv, opt)
			}
			bad := map[string]bool{}
			for _, o := range inv {
				if o.Status != "proved" {
					bad[o.Cand.id] = true
					if opt.Verbose {
						fmt.Printf("   not inductive (%s): %s\n", o.Status, o.Name)
					}
				}
			}
			if len(bad) == 0 {
				if round > 0 {
					for _, o := range rest {
						o.build(x)
					}
					solveAll(rest, opt)
				}
				r.Obls = x.obls
				r.Dropped = keys(disabled)
				return &r
			}
			// drop auto candidates before user invariants
			auto := map[string]bool{}
			for _, o := range inv {
				if bad[o.Cand.id] && !o.Cand.user {
					auto[o.Cand.id] = true
				}
			}
			drop := bad
			if len(auto) > 0 && len(auto) < len(bad) {
				drop = auto
			}
			for b := range drop {
				disabled[b] = true
				if opt.Verbose {
					fmt.Printf("   drop candidate %s\n", b)
				}
			}
			r.Obls = x.obls
		}
		r.Error = "loop invariant inference did not stabilise"
		return &r
	}
	r := run(false)
	if !r.ok() && len(con.Loops) > 0 && !opt.NoPool {
		r2 := run(true)
		if r2.ok() {
			r = r2
		}
	}
	r.VcMs = time.Since(t0).Milliseconds()
	return r
}

func (r *FuncResult) ok() bool {
	if r.Error != "" || r.Missing {
		return false
	}
	n := 0
	for _, o := range r.Obls {
		if o.Kind == "cover" {
			if o.Status == "vacuous" {
				return false
			}
			continue
		}
		n++
		if o.Status != "proved" {
			return false
		}
	}
	return true
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func shortName(c *Contract) string {
	p := c.Pkg
	if i := strings.LastIndex(p, "/"); i >= 0 {
		p = p[i+1:]
	}
	return p + "." + c.Key + c.View
}

var _ = token.NoPos
