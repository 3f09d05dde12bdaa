package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	id         int
	fn         *ssa.Function
	regs       map[ssa.Value]Value
	parent     *Frame
	depth      int
	path       string
	params     map[string]SV
	loops      map[*ssa.BasicBlock]*loopInfo
	lorder     []*ssa.BasicBlock
	con        *Contract // contract whose loop specs apply (nil when inlined)
	entryState *State
	seenAt     map[*ssa.BasicBlock]*IterVal
}

type loopInfo struct {
	header     *ssa.BasicBlock
	blocks     map[*ssa.BasicBlock]bool
	ord        int
	entry      *State
	entryGuard *Term
	cands      []*candidate
	kcell      cellKey
	startSeq   int
	decr0      *Term
	decrGuard  *Term
}

type candidate struct {
	id    string
	user  bool
	label string
	eval  func(st *State) *Term
	text  string
}

type Obligation struct {
	Name  string
	Kind  string // pre, post, inv-init, inv-keep, frame, safety, term, cover, assert
	Pos   string
	Text  string
	nass  int
	Guard *Term
	Goal  *Term
	Cand  *candidate
	Func  string
	Props []string
	// results
	Status  string // proved, failed, unknown
	Solver  string
	Ms      int64
	Detail  string
	query   string
	timeout int
}

type assumption struct {
	t     *Term
	where string
}

type writeLog struct {
	cells  map[cellKey]bool
	heaps  map[string][]*Term // nil entry = whole heap
	alloc  bool
	all    bool
	parent *writeLog
}

func newLog(p *writeLog) *writeLog {
	return &writeLog{cells: map[cellKey]bool{}, heaps: map[string][]*Term{}, parent: p}
}
func (l *writeLog) cell(k cellKey) {
	for ; l != nil; l = l.parent {
		l.cells[k] = true
	}
}
func (l *writeLog) heap(n string, base *Term) {
	for ; l != nil; l = l.parent {
		dup := false
		for _, t := range l.heaps[n] {
			if t == base {
				dup = true
			}
		}
		if !dup {
			l.heaps[n] = append(l.heaps[n], base)
		}
	}
}
func (l *writeLog) setAlloc() {
	for ; l != nil; l = l.parent {
		l.alloc = true
	}
}
func (l *writeLog) setAll() {
	for ; l != nil; l = l.parent {
		l.all = true
		l.alloc = true
	}
}

type Exec struct {
	prog     *ssa.Program
	specs    *Specs
	con      *Contract    // contract being verified
	oncall   map[int]bool // which oncall clauses met a call
	top      *Frame
	assumps  []assumption
	obls     []*Obligation
	dry      int
	log      *writeLog
	nframe   int
	disabled map[string]bool // disabled invariant candidates
	notes    map[string]bool
	used     map[string]bool // contracts used
	inlined  map[string]bool
	stack    []*ssa.Function
	pool     bool // pool mode: all loop invariants tried on every loop
	steps    int
}

func (x *Exec) note(f string, a ...interface{}) {
	if x.dry == 0 {
		x.notes[fmt.Sprintf(f, a...)] = true
	}
}

func (x *Exec) assume(guard, f *Term, where string) {
	if x.dry > 0 {
		return
	}
	t := Implies(guard, f)
	if t.Op == "true" {
		return
	}
	x.assumps = append(x.assumps, assumption{t, where})
}

func (x *Exec) oblige(kind, name, text string, pos token.Pos, guard, goal *Term, cand *candidate) {
	if x.dry > 0 {
		return
	}
	if goal.Op == "and" && cand == nil {
		for i, g := range goal.Args {
			x.oblige(kind, fmt.Sprintf("%s.%d", name, i+1), text, pos, guard, g, cand)
		}
		return
	}
	x.obls = append(x.obls, &Obligation{Name: name, Kind: kind, Text: text, Pos: x.pos(pos), nass: len(x.assumps), Guard: guard, Goal: goal, Cand: cand, timeout: x.con.Timeout})
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---------- heap access ----------

func (x *Exec) setHeap(st *State, name string, v *Term, base *Term) {
	C.heapSorts[name] = v.Sort
	st.heaps[name] = v
	x.log.heap(name, base)
}

func (x *Exec) setCell(st *State, k cellKey, v Value) {
	st.cells[k] = v
	x.log.cell(k)
}

func (x *Exec) nilCheck(ref *Term, guard *Term, pos token.Pos, what string) {
	if v, ok := intVal(ref); ok && v.Sign() != 0 {
		return
	}
	ok := Not(Eq(ref, Int(0)))
	if x.con.NoPanic {
		x.oblige("safety", "nil/"+what+"@"+x.pos(pos), "no nil dereference: "+what, pos, guard, ok, nil)
	}
	x.assume(guard, ok, "non-nil")
}

func (x *Exec) rootTerm(st *State, a *Addr) Value {
	switch a.kind {
	case aLocal:
		v, ok := st.cells[a.cell]
		if !ok {
			return zeroOf(a.typ)
		}
		return v
	case aField:
		return Select(st.heap(a.heap, arrSort(SInt, sortOf(a.typ))), a.ref)
	case aCell:
		return Select(st.heap(a.heap, arrSort(SInt, sortOf(a.typ))), a.ref)
	case aElem:
		return Select(Select(st.heap(a.heap, arrSort(SInt, arrSort(SInt, sortOf(a.typ)))), a.ref), a.idx)
	case aGlobal:
		return st.heap(a.heap, sortOf(a.typ))
	}
	panic("rootTerm")
}

func (x *Exec) setRoot(st *State, a *Addr, v Value) {
	if a.kind == aLocal {
		x.setCell(st, a.cell, v)
		return
	}
	t := x.term(v)
	switch a.kind {
	case aField, aCell:
		h := st.heap(a.heap, arrSort(SInt, sortOf(a.typ)))
		x.setHeap(st, a.heap, Store(h, a.ref, t), a.ref)
	case aElem:
		h := st.heap(a.heap, arrSort(SInt, arrSort(SInt, sortOf(a.typ))))
		x.setHeap(st, a.heap, Store(h, a.ref, Store(Select(h, a.ref), a.idx, t)), a.ref)
	case aGlobal:
		x.setHeap(st, a.heap, t, nil)
	}
}

func (x *Exec) load(st *State, av Value, t types.Type, guard *Term, pos token.Pos) Value {
	switch a := av.(type) {
	case *Addr:
		v := x.rootTerm(st, a)
		if tm, ok := v.(*Term); ok {
			for _, s := range a.path {
				if s.ix != nil {
					tm = Select(tm, s.ix)
				} else {
					tm = Field(s.structT, tm, s.idx)
				}
			}
			if a.kind != aLocal {
				x.assume(True(), wt(tm, a.target, st.alloc, 0), "typing")
			}
			return tm
		}
		if len(a.path) > 0 {
			return x.poison("path into meta value")
		}
		return v
	case *Term:
		el := deref(t)
		x.nilCheck(a, guard, pos, "load")
		return x.loadAt(st, a, el)
	case *Poison:
		panic(unsupported(a.msg))
	}
	panic(unsupported(fmt.Sprintf("load through %T", av)))
}

// loadAt reads the whole object of type el at ref.
func (x *Exec) loadAt(st *State, ref *Term, el types.Type) *Term {
	if s, ok := el.Underlying().(*types.Struct); ok && structInfo(el) != nil {
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			n, srt := fieldHeap(el, i)
			f := Select(st.heap(n, srt), ref)
			x.assume(True(), wt(f, s.Field(i).Type(), st.alloc, 0), "typing")
			fs = append(fs, f)
		}
		return MkStruct(el, fs)
	}
	if ar, ok := el.Underlying().(*types.Array); ok {
		n, srt := elemHeap(ar.Elem())
		return Select(st.heap(n, srt), ref)
	}
	v := cellLoad(st, ref, el)
	x.assume(True(), wt(v, el, st.alloc, 0), "typing")
	return v
}

// EPtr is the value of a pointer into a slice element: a negative number, injective in both arguments.
func EPtr(arr, idx *Term) *Term {
	Axiom("eptr", func() *Term {
		a, i := BoundVar("a", SInt), BoundVar("i", SInt)
		t := App("eptr", SInt, a, i)
		return Forall([]*Term{a, i}, And(Lt(t, Int(0)), Eq(App("eptr.arr", SInt, t), a), Eq(App("eptr.idx", SInt, t), i)), []*Term{t})
	})
	return App("eptr", SInt, arr, idx)
}

// isObjRef: syntactically a non-negative reference (a newly allocated object)
func isObjRef(r *Term) bool {
	if v, ok := intVal(r); ok {
		return v.Sign() >= 0
	}
	m, k := linear(r)
	if len(m) != 1 || k.Sign() < 0 {
		return false
	}
	for t, c := range m {
		return (t.Op == "alloc0" || strings.HasPrefix(t.Op, "alloc!") || strings.HasPrefix(t.Op, "free$")) && c.Sign() > 0
	}
	return false
}

func cellLoad(st *State, ref *Term, el types.Type) *Term {
	n, srt := cellHeap(el)
	v := Select(st.heap(n, srt), ref)
	if isObjRef(ref) {
		return v
	}
	if ref.Op == "eptr" {
		h, hs := elemHeap(el)
		return Select(Select(st.heap(h, hs), ref.Args[0]), ref.Args[1])
	}
	h, hs := elemHeap(el)
	return Ite(Lt(ref, Int(0)), Select(Select(st.heap(h, hs), App("eptr.arr", SInt, ref)), App("eptr.idx", SInt, ref)), v)
}

func (x *Exec) storeAt(st *State, ref *Term, el types.Type, v *Term) {
	if s, ok := el.Underlying().(*types.Struct); ok && structInfo(el) != nil {
		for i := 0; i < s.NumFields(); i++ {
			n, srt := fieldHeap(el, i)
			x.setHeap(st, n, Store(st.heap(n, srt), ref, Field(el, v, i)), ref)
		}
		return
	}
	if ar, ok := el.Underlying().(*types.Array); ok {
		n, srt := elemHeap(ar.Elem())
		x.setHeap(st, n, Store(st.heap(n, srt), ref, v), ref)
		return
	}
	n, srt := cellHeap(el)
	if isObjRef(ref) {
		x.setHeap(st, n, Store(st.heap(n, srt), ref, v), ref)
		return
	}
	h, hs := elemHeap(el)
	ea, ei := App("eptr.arr", SInt, ref), App("eptr.idx", SInt, ref)
	if ref.Op == "eptr" {
		ea, ei = ref.Args[0], ref.Args[1]
	}
	neg := Lt(ref, Int(0))
	if ref.Op == "eptr" {
		neg = True()
	}
	H, P := st.heap(h, hs), st.heap(n, srt)
	if neg.Op != "false" {
		x.setHeap(st, h, Ite(neg, Store(H, ea, Store(Select(H, ea), ei, v)), H), ea)
	}
	if neg.Op != "true" {
		x.setHeap(st, n, Ite(neg, P, Store(P, ref, v)), ref)
	}
}

func (x *Exec) store(st *State, av Value, t types.Type, v Value, guard *Term, pos token.Pos) {
	switch a := av.(type) {
	case *Addr:
		if len(a.path) == 0 {
			x.setRoot(st, a, v)
			return
		}
		root := x.term(x.rootTerm(st, a))
		x.setRoot(st, a, pathUpdate(root, a.path, x.term(v)))
	case *Term:
		x.nilCheck(a, guard, pos, "store")
		x.storeAt(st, a, deref(t), x.term(v))
	case *Poison:
		panic(unsupported(a.msg))
	default:
		panic(unsupported(fmt.Sprintf("store through %T", av)))
	}
}

func pathUpdate(root *Term, path []step, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	if s.ix != nil {
		return Store(root, s.ix, pathUpdate(Select(root, s.ix), path[1:], v))
	}
	return WithField(s.structT, root, s.idx, pathUpdate(Field(s.structT, root, s.idx), path[1:], v))
}

func (x *Exec) poison(m string) Value { return &Poison{m} }

// term turns a meta value into an SMT term.
func (x *Exec) term(v Value) *Term {
	switch t := v.(type) {
	case *Term:
		return t
	case *Addr:
		if t.kind == aLocal {
			panic(unsupported("address of a local used as a value"))
		}
		if t.kind == aGlobal && len(t.path) == 0 {
			return Const("addr$"+t.heap, SInt)
		}
		if t.kind == aElem && len(t.path) == 0 && !isStructT(t.typ) {
			return EPtr(t.ref, t.idx)
		}
		panic(unsupported("interior pointer used as a value"))
	case *Closure:
		n := "fn$" + sanitize(t.fn.RelString(nil))
		return Fresh(n, SInt)
	case *Poison:
		panic(unsupported(t.msg))
	case nil:
		panic(unsupported("undefined value"))
	}
	panic(unsupported(fmt.Sprintf("%T used as a term", v)))
}

func isStructT(t types.Type) bool {
	_, a := t.Underlying().(*types.Struct)
	_, b := t.Underlying().(*types.Array)
	return (a || b) && !isTypeParam(t)
}

func isTypeParam(t types.Type) bool { _, ok := types.Unalias(t).(*types.TypeParam); return ok }

func (x *Exec) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, Int(1))
	x.log.setAlloc()
	return r
}

// ---------- values ----------

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return &Closure{fn: c}
	case *ssa.Global:
		n, _ := globHeap(c)
		el := deref(c.Type())
		return &Addr{kind: aGlobal, heap: n, typ: el, target: el}
	case *ssa.Builtin:
		return c
	}
	if r, ok := fr.regs[v]; ok {
		return r
	}
	panic(unsupported("undefined register " + v.Name() + " in " + fr.fn.Name()))
}

func (x *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	switch s := sortOf(t); s {
	case SInt:
		if c.Value.Kind() == constant.Int {
			b, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
			return BigInt(b)
		}
		i := constant.ToInt(c.Value)
		if i.Kind() == constant.Int {
			b, _ := new(big.Int).SetString(i.ExactString(), 10)
			return BigInt(b)
		}
	case SBool:
		return Bool(constant.BoolVal(c.Value))
	case SStr:
		return StrLit(constant.StringVal(c.Value))
	case SReal:
		return realConst(c.Value)
	}
	panic(unsupported("constant " + c.String()))
}

func realConst(v constant.Value) *Term {
	f := constant.ToFloat(v)
	n, d := constant.Num(f), constant.Denom(f)
	ns, ds := n.ExactString(), d.ExactString()
	neg := strings.HasPrefix(ns, "-")
	ns = strings.TrimPrefix(ns, "-")
	s := ns + ".0"
	if ds != "1" {
		s = "(/ " + ns + ".0 " + ds + ".0)"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return mk(s, SReal)
}

// ---------- control flow ----------

type exit struct {
	guard   *Term
	st      *State
	results []Value
	pos     token.Pos
}

func (x *Exec) newFrame(fn *ssa.Function, parent *Frame) *Frame {
	x.nframe++
	fr := &Frame{id: x.nframe, fn: fn, regs: map[ssa.Value]Value{}, parent: parent}
	if parent != nil {
		fr.depth = parent.depth + 1
		fr.path = parent.path + ">" + fn.Name()
	} else {
		fr.path = fn.Name()
	}
	fr.findLoops()
	return fr
}

func isBackEdge(u, v *ssa.BasicBlock) bool { return v.Dominates(u) }

func (fr *Frame) findLoops() {
	fr.loops = map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fr.fn.Blocks {
		for _, s := range b.Succs {
			if isBackEdge(b, s) {
				li := fr.loops[s]
				if li == nil {
					li = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fr.loops[s] = li
					fr.lorder = append(fr.lorder, s)
				}
				var walk func(n *ssa.BasicBlock)
				walk = func(n *ssa.BasicBlock) {
					if li.blocks[n] {
						return
					}
					li.blocks[n] = true
					for _, p := range n.Preds {
						walk(p)
					}
				}
				walk(b)
			}
		}
	}
	// source order of the loops
	first := func(h *ssa.BasicBlock) token.Pos {
		best := token.Pos(1 << 60)
		for b := range fr.loops[h].blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Alloc); ok {
					continue
				}
				if p := in.Pos(); p.IsValid() && p < best {
					best = p
				}
			}
		}
		return best
	}
	sort.SliceStable(fr.lorder, func(i, j int) bool {
		a, b := fr.lorder[i], fr.lorder[j]
		pa, pb := first(a), first(b)
		if pa != pb {
			return pa < pb
		}
		return len(fr.loops[a].blocks) > len(fr.loops[b].blocks)
	})
	for i, h := range fr.lorder {
		fr.loops[h].ord = i + 1
		fr.loops[h].kcell = cellKey{frame: fr.id, name: "$k", blk: h}
	}
}

// rpo orders blocks topologically, ignoring back edges.
func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] && !isBackEdge(b, s) {
				dfs(s)
			}
		}
		out = append(out, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (x *Exec) runBody(fr *Frame, st *State, guard *Term) []exit {
	if len(fr.fn.Blocks) == 0 {
		panic(unsupported("no body: " + fr.fn.String()))
	}
	in := map[*ssa.BasicBlock][]edge{fr.fn.Blocks[0]: {{nil, guard, st}}}
	exits, _, _ := x.runBlocks(fr, rpo(fr.fn), in, nil)
	return exits
}

// runBlocks executes the given blocks (in topological order). When only is not nil, it is a
// dry run of one loop: its header takes the incoming state as is, and back edges to it are returned.
func (x *Exec) runBlocks(fr *Frame, order []*ssa.BasicBlock, in map[*ssa.BasicBlock][]edge, only *loopInfo) (exits []exit, backs []edge, leaves []edge) {
	for _, b := range order {
		if only != nil && !only.blocks[b] {
			continue
		}
		es := in[b]
		var live []edge
		for _, e := range es {
			if e.guard.Op != "false" {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			continue
		}
		st, g := mergeStates(live)
		// phis
		var phis []*ssa.Phi
		var pv []Value
		for _, i := range b.Instrs {
			p, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			var acc Value
			var ag *Term
			for _, e := range live {
				for pi, pr := range b.Preds {
					if pr == e.pred {
						v := x.val(fr, st, p.Edges[pi])
						if acc == nil {
							acc, ag = v, e.guard
						} else {
							acc = mergeVal(splitCond(ag, e.guard), acc, v)
							ag = Or(ag, e.guard)
						}
						break
					}
				}
			}
			phis = append(phis, p)
			pv = append(pv, acc)
		}
		for i, p := range phis {
			fr.regs[p] = pv[i]
		}
		if li := fr.loops[b]; li != nil && (only == nil || only.header != b) {
			st, g = x.enterLoop(fr, li, st, g)
		}
		x.steps++
		if x.steps > 200000 {
			panic(unsupported("symbolic execution too large"))
		}
		var term ssa.Instruction
		dead := false
		for _, ins := range b.Instrs {
			switch ins.(type) {
			case *ssa.Phi:
				continue
			case *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Panic:
				term = ins
			default:
				g = x.instr(fr, st, g, ins)
				if g.Op == "false" {
					dead = true
				}
			}
			if dead {
				break
			}
		}
		if dead || term == nil {
			continue
		}
		push := func(s *ssa.BasicBlock, g *Term, st *State) {
			if g.Op == "false" {
				return
			}
			if isBackEdge(b, s) {
				if only != nil && s == only.header {
					backs = append(backs, edge{b, g, st})
				} else {
					x.backEdge(fr, fr.loops[s], st, g)
				}
				return
			}
			if only != nil && !only.blocks[s] {
				leaves = append(leaves, edge{b, g, st})
				return
			}
			in[s] = append(in[s], edge{b, g, st})
		}
		switch t := term.(type) {
		case *ssa.Jump:
			push(b.Succs[0], g, st)
		case *ssa.If:
			c := x.term(x.val(fr, st, t.Cond))
			push(b.Succs[0], And(g, c), st)
			push(b.Succs[1], And(g, Not(c)), st.clone())
		case *ssa.Return:
			var rs []Value
			for _, r := range t.Results {
				rs = append(rs, x.val(fr, st, r))
			}
			exits = append(exits, exit{g, st, rs, t.Pos()})
		case *ssa.Panic:
			if x.con.NoPanic {
				x.oblige("safety", "panic@"+x.pos(t.Pos()), "explicit panic unreachable", t.Pos(), g, False(), nil)
			}
		}
	}
	return
}

// ---------- loops ----------

func (x *Exec) enterLoop(fr *Frame, li *loopInfo, st *State, g *Term) (*State, *Term) {
	order := rpo(fr.fn)
	li.entry = st.clone()
	li.entryGuard = g
	li.entry.cells[li.kcell] = Int(0)
	st.cells[li.kcell] = Int(0)
	x.log.cell(li.kcell)
	savedRegs := map[ssa.Value]Value{}
	for k, v := range fr.regs {
		savedRegs[k] = v
	}
	li.startSeq = C.nseq
	frame0 := x.nframe
	// fixpoint of the modified set by dry runs
	var log *writeLog
	var hst *State
	var backs []edge
	for iter := 0; ; iter++ {
		if iter > 6 {
			if os.Getenv("GOVC_DBG") != "" {
				for k := range log.cells {
					fmt.Println("cell", k)
				}
				for k, v := range log.heaps {
					fmt.Println("heap", k, len(v))
				}
			}
			panic(unsupported("loop modified set does not stabilise"))
		}
		prev := log
		li.startSeq = C.nseq
		hst = x.havocLoop(fr, li, prev, false)
		nl := newLog(nil)
		saveLog := x.log
		x.log = nl
		x.dry++
		saveLoops := fr.saveLoops()
		_, backs, _ = x.runBlocks(fr, order, map[*ssa.BasicBlock][]edge{li.header: {{nil, g, hst.clone()}}}, li)
		fr.restoreLoops(saveLoops)
		x.dry--
		x.log = saveLog
		nl.cells[li.kcell] = true
		for k := range nl.cells {
			if k.frame > frame0 {
				// a local of a call inlined in the body: gone when the body ends
				delete(nl.cells, k)
			}
		}
		stable := prev != nil && len(prev.cells) >= len(nl.cells) && prev.all == nl.all && prev.alloc == nl.alloc
		if stable {
			for k := range nl.cells {
				if !prev.cells[k] {
					stable = false
				}
			}
			for h, bs := range nl.heaps {
				pb, ok := prev.heaps[h]
				if !ok {
					stable = false
					break
				}
				// same classification
				if classify(bs, li.startSeq, li.entry.alloc) != classify(pb, li.startSeq, li.entry.alloc) && !subsetTerms(bs, pb) {
					_ = pb
				}
			}
		}
		if prev != nil {
			for k := range prev.cells {
				nl.cells[k] = true
			}
			for h := range prev.heaps {
				if _, ok := nl.heaps[h]; !ok {
					nl.heaps[h] = []*Term{}
				}
			}
			nl.all = nl.all || prev.all
			nl.alloc = nl.alloc || prev.alloc
		}
		log = nl
		if stable {
			break
		}
	}
	// restore registers defined before
	for k, v := range savedRegs {
		fr.regs[k] = v
	}
	// the parent's log sees the loop's writes
	for k := range log.cells {
		x.log.cell(k)
	}
	for h, bs := range log.heaps {
		if len(bs) == 0 {
			continue
		}
		for _, b := range bs {
			if b != nil && b.seq > li.startSeq {
				if isFreshRef(b, li.entry.alloc, li) {
					// allocated inside the loop: invisible as an old object, keep as such
					x.log.heap(h, b)
					continue
				}
			}
			x.log.heap(h, b)
		}
	}
	if log.alloc {
		x.log.setAlloc()
	}
	if log.all {
		x.log.setAll()
	}
	// final havoc with precise frames
	nst := x.havocLoop(fr, li, log, true)
	// candidates
	li.cands = nil
	x.loopCandidates(fr, li, log, hst, backs, nst, g)
	for _, c := range li.cands {
		if x.disabled[c.id] {
			continue
		}
		init := x.evalCand(c, li.entry)
		if init == nil {
			continue
		}
		x.oblige("inv-init", c.id+"/init", c.text, li.header.Instrs[0].Pos(), g, init, c)
	}
	for _, c := range li.cands {
		if x.disabled[c.id] {
			continue
		}
		f := x.evalCand(c, nst)
		if f == nil {
			continue
		}
		x.assume(g, f, "invariant "+c.id)
	}
	ls := x.loopSpec(fr, li)
	li.decr0 = nil
	if ls != nil && ls.Decreases != nil {
		if v := x.tryEval(fr, li, *ls.Decreases, nst); v != nil && v.Sort == SInt {
			li.decr0 = v
		} else {
			x.note("loop %d: decreases measure could not be evaluated", li.ord)
			x.oblige("term", fmt.Sprintf("loop%d/decreases", li.ord), ls.Decreases.Text, li.header.Instrs[0].Pos(), g, False(), nil)
		}
	}
	return nst, g
}

func subsetTerms(a, b []*Term) bool {
	m := map[*Term]bool{}
	for _, t := range b {
		m[t] = true
	}
	for _, t := range a {
		if !m[t] {
			return false
		}
	}
	return true
}

func classify(bs []*Term, seq int, alloc *Term) string {
	s := ""
	for _, b := range bs {
		if b == nil {
			s += "*"
		} else if b.seq > seq {
			s += "v"
		} else {
			s += fmt.Sprintf("s%d", b.id)
		}
	}
	return s
}

func (fr *Frame) saveLoops() map[*ssa.BasicBlock]loopInfo {
	m := map[*ssa.BasicBlock]loopInfo{}
	for k, v := range fr.loops {
		m[k] = *v
	}
	return m
}
func (fr *Frame) restoreLoops(m map[*ssa.BasicBlock]loopInfo) {
	for k, v := range m {
		*fr.loops[k] = v
	}
}

// isFreshRef: is b syntactically a reference allocated after the loop was entered (loop's havoced allocation counter plus a constant)?
func isFreshRef(b *Term, entryAlloc *Term, li *loopInfo) bool {
	m, k := linear(b)
	if len(m) == 1 && k.Sign() >= 0 {
		for t, c := range m {
			if strings.HasPrefix(t.Op, "alloc!") && c.IsInt64() && c.Int64() == 1 && t.seq > li.startSeq {
				return true
			}
		}
	}
	return false
}

// havocLoop makes the state at the head of an arbitrary iteration.
func (x *Exec) havocLoop(fr *Frame, li *loopInfo, log *writeLog, final bool) *State {
	st := li.entry.clone()
	if log == nil {
		return st
	}
	if log.all {
		st.epoch = newEpoch()
		st.heaps = map[string]*Term{}
	}
	if log.alloc {
		st.alloc = Fresh("alloc", SInt)
		if final {
			x.assume(True(), Le(li.entry.alloc, st.alloc), "allocation grows")
		}
	}
	var cks []cellKey
	for k := range log.cells {
		cks = append(cks, k)
	}
	sort.Slice(cks, func(i, j int) bool { return cellLess(cks[i], cks[j]) })
	for _, k := range cks {
		ov, ok := li.entry.cells[k]
		if !ok {
			continue // declared inside the loop
		}
		t, ok := ov.(*Term)
		if !ok {
			if k.name == "$seen" {
				panic("seen")
			}
			// meta values modified in a loop
			st.cells[k] = &Poison{"meta value modified in a loop"}
			continue
		}
		n := k.name
		if k.v != nil {
			if a, ok := k.v.(*ssa.Alloc); ok && a.Comment != "" {
				n = a.Comment
			}
		}
		v := Fresh(n, t.Sort)
		st.cells[k] = v
		if final {
			if k.name == "$k" {
				x.assume(True(), Le(Int(0), v), "iteration counter")
			} else if a, ok := k.v.(*ssa.Alloc); ok {
				x.assume(True(), wt(v, deref(a.Type()), st.alloc, 0), "typing")
			}
		}
	}
	if !log.all {
		var hs []string
		for h := range log.heaps {
			hs = append(hs, h)
		}
		sort.Strings(hs)
		for _, h := range hs {
			srt := C.heapSorts[h]
			old := li.entry.heap(h, srt)
			nv := Fresh(h, srt)
			if strings.HasPrefix(h, "G$") {
				st.heaps[h] = nv
				continue
			}
			// precise frame when every written base is stable or fresh
			stable := true
			var bases []*Term
			for _, b := range log.heaps[h] {
				if b == nil {
					stable = false
					break
				}
				if b.seq <= li.startSeq {
					bases = append(bases, b)
				} else if isFreshRef(b, li.entry.alloc, li) {
				} else {
					stable = false
				}
			}
			if stable {
				t := old
				_, es := arrParts(srt)
				for i, b := range bases {
					t = Store(t, b, Fresh(fmt.Sprintf("%s.at%d", h, i), es))
				}
				st.heaps[h] = t
			} else {
				st.heaps[h] = nv
			}
		}
	}
	return st
}

func cellLess(a, b cellKey) bool {
	if a.frame != b.frame {
		return a.frame < b.frame
	}
	if a.name != b.name {
		return a.name < b.name
	}
	if a.blk != nil && b.blk != nil && a.blk != b.blk {
		return a.blk.Index < b.blk.Index
	}
	if a.v != nil && b.v != nil {
		if a.v.Pos() != b.v.Pos() {
			return a.v.Pos() < b.v.Pos()
		}
		return a.v.Name() < b.v.Name()
	}
	return a.v == nil && b.v != nil
}

func (x *Exec) loopSpec(fr *Frame, li *loopInfo) *LoopSpec {
	if fr.con == nil {
		return nil
	}
	return fr.con.Loops[li.ord]
}

func (x *Exec) evalCand(c *candidate, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				x.note("invariant %s not evaluated: %s", c.id, se.msg)
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.eval(st)
}

func (x *Exec) tryEval(fr *Frame, li *loopInfo, cl Clause, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				x.note("%q not evaluated: %s", cl.Text, se.msg)
				t = nil
				return
			}
			panic(r)
		}
	}()
	env := x.loopEnv(fr, li, st)
	return env.eval(cl.Ex).T
}

func (x *Exec) loopCandidates(fr *Frame, li *loopInfo, log *writeLog, hst *State, backs []edge, nst *State, g *Term) {
	base := fmt.Sprintf("%s/loop%d", fr.path, li.ord)
	add := func(c *candidate) { c.id = base + "/" + c.label; li.cands = append(li.cands, c) }
	// user invariants
	var invs []Clause
	if ls := x.loopSpec(fr, li); ls != nil {
		invs = append(invs, ls.Inv...)
	}
	invs = append(invs, x.con.LoopPool...)
	if x.pool && x.top.con != nil {
		var ords []int
		for o := range x.top.con.Loops {
			ords = append(ords, o)
		}
		sort.Ints(ords)
		for _, o := range ords {
			if fr.con != nil && o == li.ord {
				continue
			}
			invs = append(invs, x.top.con.Loops[o].Inv...)
		}
	}
	for i, cl := range invs {
		cl := cl
		lb := cl.Label
		if lb == "" {
			lb = fmt.Sprintf("inv%d", i+1)
		} else {
			lb = fmt.Sprintf("inv%d[%s]", i+1, lb)
		}
		add(&candidate{user: true, label: lb, text: cl.Text, eval: func(st *State) *Term { return x.loopEnv(fr, li, st).evalBool(cl.Ex) }})
	}
	// counters: a cell that every back edge leaves at its header value plus a constant
	var cks []cellKey
	for k := range log.cells {
		cks = append(cks, k)
	}
	sort.Slice(cks, func(i, j int) bool { return cellLess(cks[i], cks[j]) })
	steps := map[cellKey]*big.Int{}
	for _, k := range cks {
		if k.name == "$k" && k != li.kcell {
			continue
		}
		h, ok := hst.cells[k].(*Term)
		if !ok || h.Sort != SInt || k == li.kcell || len(backs) == 0 {
			continue
		}
		var d *big.Int
		good := true
		for _, e := range backs {
			v, ok := e.st.cells[k].(*Term)
			if !ok {
				good = false
				break
			}
			m, c := linear(Sub(v, h))
			if len(m) != 0 || (d != nil && d.Cmp(c) != 0) {
				good = false
				break
			}
			d = c
		}
		if !good || d == nil {
			continue
		}
		steps[k] = d
		k := k
		add(&candidate{label: "counter:" + cellName(k), text: cellName(k) + " advances by a constant", eval: func(st *State) *Term {
			return Eq(st.cells[k].(*Term), Add(li.entry.cells[k].(*Term), Mul(BigInt(d), st.cells[li.kcell].(*Term))))
		}})
	}
	// loop condition in the header: a < b held one step ago
	if n := len(li.header.Instrs); n > 0 {
		if iff, ok := li.header.Instrs[n-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.LSS || bo.Op == token.LEQ || bo.Op == token.GTR || bo.Op == token.GEQ || bo.Op == token.NEQ) && fr.regs[bo.X] != nil || ok && fr.regs[iff.Cond] != nil {
				x.condCandidate(fr, li, iff, hst, steps, add)
			}
		}
	}
	// map iteration: visited keys are in the domain (map unchanged)
	for k := range li.entry.cells {
		if k.name == "$seen" && k.frame == fr.id {
			if log.cells[k] {
				k := k
				_ = k
			}
		}
	}
	// heaps with varying bases: frame candidates
	if !log.all {
		var hs []string
		for h := range log.heaps {
			hs = append(hs, h)
		}
		sort.Strings(hs)
		for _, h := range hs {
			if strings.HasPrefix(h, "G$") {
				continue
			}
			h := h
			srt := C.heapSorts[h]
			is, _ := arrParts(srt)
			if is != SInt {
				continue
			}
			stable, whole := true, false
			var bases []*Term
			for _, b := range log.heaps[h] {
				if b == nil {
					whole, stable = true, false
				} else if b.seq <= li.startSeq {
					bases = append(bases, b)
				} else if !isFreshRef(b, li.entry.alloc, li) {
					stable = false
				}
			}
			_ = whole
			if stable {
				continue // exact by construction
			}
			entryAlloc := li.entry.alloc
			add(&candidate{label: "frame1:" + h, text: "objects existing before the loop keep " + h, eval: func(st *State) *Term {
				r := BoundVar("r", SInt)
				cs := []*Term{Lt(r, entryAlloc), Lt(Int(0), r)}
				for _, b := range bases {
					cs = append(cs, Not(Eq(r, b)))
				}
				nv := Select(st.heap(h, srt), r)
				return Forall([]*Term{r}, Implies(And(cs...), Eq(nv, Select(li.entry.heap(h, srt), r))), []*Term{nv})
			}})
			ls := x.loopSpec(fr, li)
			if ls != nil && len(ls.Modifies) > 0 {
				add(&candidate{label: "frameL:" + h, text: "only the loop's modifies set changes in " + h, eval: func(st *State) *Term {
					env := x.loopEnv(fr, li, li.entry)
					items := env.modItems(ls.Modifies)
					return x.frameFormula(h, srt, items, li.entry.heap(h, srt), st.heap(h, srt), entryAlloc)
				}})
			}
			if x.con.HasMod || !x.con.NoFrame {
				add(&candidate{label: "frame2:" + h, text: "objects outside the modifies clause keep " + h, eval: func(st *State) *Term {
					items := x.topMods()
					return x.frameFormula(h, srt, items, x.top.entryState.heap(h, srt), st.heap(h, srt), x.top.entryState.alloc)
				}})
			}
		}
	}
}

func cellName(k cellKey) string {
	if k.v != nil {
		if a, ok := k.v.(*ssa.Alloc); ok {
			return a.Comment
		}
		return k.v.Name()
	}
	return k.name
}

// condCandidate: for a header condition a OP b whose two sides are linear in counters, the condition
// evaluated one step earlier holds unless no iteration was completed.
func (x *Exec) condCandidate(fr *Frame, li *loopInfo, iff *ssa.If, hst *State, steps map[cellKey]*big.Int, add func(*candidate)) {
	// the condition as a term over the header state's constants
	ct, ok := fr.regs[iff.Cond].(*Term)
	if !ok || ct.Sort != SBool {
		return
	}
	// which successor stays in the loop
	stay := li.blocks[li.header.Succs[0]]
	if stay && li.blocks[li.header.Succs[1]] {
		return
	}
	cond := ct
	if !stay {
		cond = Not(ct)
	}
	// substitution header constant -> current cell value minus one step
	type sub struct {
		c *Term
		k cellKey
	}
	var subs []sub
	for k, v := range hst.cells {
		t, ok := v.(*Term)
		if ok && len(t.Args) == 0 && t.seq > li.startSeq {
			subs = append(subs, sub{t, k})
		}
	}
	usable := true
	consts := map[*Term]bool{}
	collectConsts(cond, consts)
	subOf := map[*Term]cellKey{}
	for _, s := range subs {
		subOf[s.c] = s.k
	}
	for c := range consts {
		if c.seq > li.startSeq {
			k, ok := subOf[c]
			if !ok {
				usable = false
			} else if _, ok := steps[k]; !ok {
				usable = false
			}
		}
	}
	if !usable || len(cond.fv) > 0 {
		return
	}
	add(&candidate{label: "cond", text: "the loop condition held at the previous iteration", eval: func(st *State) *Term {
		m := map[*Term]*Term{}
		for c := range consts {
			if c.seq > li.startSeq {
				k := subOf[c]
				cur, ok := st.cells[k].(*Term)
				if !ok {
					return True()
				}
				m[c] = Sub(cur, BigInt(steps[k]))
			}
		}
		return Or(Eq(st.cells[li.kcell].(*Term), Int(0)), subst(cond, m))
	}})
}

func collectConsts(t *Term, m map[*Term]bool) {
	if m[t] {
		return
	}
	if len(t.Args) == 0 {
		m[t] = true
		return
	}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if len(t.Args) == 0 {
			m[t] = true
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
}

// subst replaces constants, rebuilding with simplification.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "not":
		return Not(a[0])
	case "=>":
		return Implies(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "<":
		return Lt(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "+":
		r := a[0]
		for _, y := range a[1:] {
			r = Add(r, y)
		}
		return r
	case "*":
		if len(a) == 2 {
			return Mul(a[0], a[1])
		}
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "forall", "exists":
		return quant(t.Op, t.bv, a[0], t.pats...)
	}
	return mk(t.Op, t.Sort, a...)
}

func (x *Exec) backEdge(fr *Frame, li *loopInfo, st *State, g *Term) {
	if x.dry > 0 {
		return
	}
	s := st.clone()
	k := s.cells[li.kcell].(*Term)
	s.cells[li.kcell] = Add(k, Int(1))
	for _, c := range li.cands {
		if x.disabled[c.id] {
			continue
		}
		f := x.evalCand(c, s)
		if f == nil {
			continue
		}
		x.oblige("inv-keep", c.id+"/keep", c.text, li.header.Instrs[0].Pos(), g, f, c)
	}
	if li.decr0 != nil {
		ls := x.loopSpec(fr, li)
		v := x.tryEval(fr, li, *ls.Decreases, s)
		if v == nil {
			v = li.decr0
		}
		x.oblige("term", fmt.Sprintf("%s/loop%d/decreases", fr.path, li.ord), ls.Decreases.Text, li.header.Instrs[0].Pos(), g, And(Le(Int(0), li.decr0), Lt(v, li.decr0)), nil)
	}
}
