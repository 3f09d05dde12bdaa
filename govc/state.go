package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Tuple []Value

type Closure struct {
	fn   *ssa.Function
	free []Value
	recv Value // bound method receiver (when hasRecv)
}

type Poison struct{ msg string }

type IterVal struct {
	isStr bool
	mt    *types.Map
	ref   *Term
	seen  cellKey
}

type cellKey struct {
	frame int
	name  string
	v     ssa.Value
	blk   *ssa.BasicBlock
}

type addrKind int

const (
	aLocal addrKind = iota
	aField
	aElem
	aCell
	aGlobal
)

type step struct {
	structT types.Type // field step
	idx     int
	arrT    *types.Array // index step
	ix      *Term
}

// Addr is a symbolic lvalue.
type Addr struct {
	kind   addrKind
	cell   cellKey
	ref    *Term
	idx    *Term
	typ    types.Type // type of the root location's content
	heap   string
	path   []step
	target types.Type // type of the designated location
}

type State struct {
	cells  map[cellKey]Value
	heaps  map[string]*Term
	alloc  *Term
	epoch  int
	defers []deferred
}

type deferred struct {
	guard *Term
	instr *ssa.Defer
	fn    Value
	args  []Value
	frame *Frame
}

func (s *State) clone() *State {
	n := &State{cells: make(map[cellKey]Value, len(s.cells)), heaps: make(map[string]*Term, len(s.heaps)), alloc: s.alloc, epoch: s.epoch}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.defers = append([]deferred{}, s.defers...)
	return n
}

func epochHeap(name string, srt Sort, e int) *Term {
	ei := C.epochs[e]
	if ei.join {
		return Ite(ei.cond, epochHeap(name, srt, ei.a), epochHeap(name, srt, ei.b))
	}
	return Const(fmt.Sprintf("%s@%d", name, e), srt)
}

func newEpoch() int {
	C.epochs = append(C.epochs, epochInfo{})
	return len(C.epochs) - 1
}

func (s *State) heap(name string, srt Sort) *Term {
	if t, ok := s.heaps[name]; ok {
		return t
	}
	C.heapSorts[name] = srt
	t := epochHeap(name, srt, s.epoch)
	s.heaps[name] = t
	return t
}

// heap names
func fieldHeap(t types.Type, i int) (string, Sort) {
	st := t.Underlying().(*types.Struct)
	n := st.Field(i).Name()
	if n == "_" {
		n = fmt.Sprintf("_%d", i)
	}
	return "F$" + sanitize(typeKey(t)) + "." + n, arrSort(SInt, sortOf(st.Field(i).Type()))
}
func elemHeap(e types.Type) (string, Sort) {
	return "E$" + sanitize(typeKey(e)), arrSort(SInt, arrSort(SInt, sortOf(e)))
}
func cellHeap(t types.Type) (string, Sort) {
	return "P$" + sanitize(typeKey(t)), arrSort(SInt, sortOf(t))
}
func mapDom(m *types.Map) (string, Sort) {
	return "MD$" + sanitize(typeKey(m.Key())) + "$" + sanitize(typeKey(m.Elem())), arrSort(SInt, arrSort(sortOf(m.Key()), SBool))
}
func mapVal(m *types.Map) (string, Sort) {
	return "MV$" + sanitize(typeKey(m.Key())) + "$" + sanitize(typeKey(m.Elem())), arrSort(SInt, arrSort(sortOf(m.Key()), sortOf(m.Elem())))
}
func mapCard(m *types.Map) (string, Sort) {
	return "MC$" + sanitize(typeKey(m.Key())) + "$" + sanitize(typeKey(m.Elem())), arrSort(SInt, SInt)
}
func globHeap(g *ssa.Global) (string, Sort) {
	return "G$" + sanitize(g.Pkg.Pkg.Name()+"."+g.Name()), sortOf(deref(g.Type()))
}

func deref(t types.Type) types.Type {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

type edge struct {
	pred  *ssa.BasicBlock
	guard *Term
	st    *State
}

// mergeStates joins the states of mutually exclusive edges.
func mergeStates(es []edge) (*State, *Term) {
	if len(es) == 1 {
		return es[0].st.clone(), es[0].guard
	}
	acc, g := es[0].st, es[0].guard
	for _, e := range es[1:] {
		c := splitCond(g, e.guard)
		acc = merge2(c, acc, e.st)
		g = Or(g, e.guard)
	}
	return acc, g
}

// splitCond gives a condition that is true on g1 and false on g2 (mutually exclusive guards).
func splitCond(g1, g2 *Term) *Term {
	in := map[int]bool{}
	for _, t := range conj(g2) {
		in[t.id] = true
	}
	var r []*Term
	for _, t := range conj(g1) {
		if !in[t.id] {
			r = append(r, t)
		}
	}
	return And(r...)
}

func mergeVal(c *Term, a, b Value) Value {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			if x.Sort != y.Sort {
				return &Poison{"merge of different sorts"}
			}
			return Ite(c, x, y)
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			r := make(Tuple, len(x))
			for i := range x {
				r[i] = mergeVal(c, x[i], y[i])
			}
			return r
		}
	case *Addr:
		if y, ok := b.(*Addr); ok {
			if x == y || addrEq(x, y) {
				return x
			}
			if x.kind == y.kind && x.heap == y.heap && x.cell == y.cell && len(x.path) == len(y.path) && x.kind != aLocal {
				ok := true
				var path []step
				for i := range x.path {
					p, q := x.path[i], y.path[i]
					if p.idx != q.idx || (p.ix == nil) != (q.ix == nil) {
						ok = false
						break
					}
					if p.ix != nil {
						p.ix = Ite(c, p.ix, q.ix)
					}
					path = append(path, p)
				}
				if ok {
					z := *x
					z.path = path
					if x.ref != nil {
						z.ref = Ite(c, x.ref, y.ref)
					}
					if x.idx != nil {
						z.idx = Ite(c, x.idx, y.idx)
					}
					return &z
				}
			}
		}
	case *Closure:
		if y, ok := b.(*Closure); ok && x == y {
			return x
		}
	case *IterVal:
		if a == b {
			return a
		}
	}
	if a == b {
		return a
	}
	return &Poison{fmt.Sprintf("merge of %T and %T", a, b)}
}

func addrEq(x, y *Addr) bool {
	if x.kind != y.kind || x.cell != y.cell || x.ref != y.ref || x.idx != y.idx || x.heap != y.heap || len(x.path) != len(y.path) {
		return false
	}
	for i := range x.path {
		if x.path[i].idx != y.path[i].idx || x.path[i].ix != y.path[i].ix {
			return false
		}
	}
	return true
}

func merge2(c *Term, a, b *State) *State {
	n := &State{cells: map[cellKey]Value{}, heaps: map[string]*Term{}}
	for k, v := range a.cells {
		if w, ok := b.cells[k]; ok {
			n.cells[k] = mergeVal(c, v, w)
		} else {
			n.cells[k] = v // out of scope on the other side
		}
	}
	for k, v := range b.cells {
		if _, ok := a.cells[k]; !ok {
			n.cells[k] = v
		}
	}
	names := map[string]bool{}
	for k := range a.heaps {
		names[k] = true
	}
	for k := range b.heaps {
		names[k] = true
	}
	var ns []string
	for k := range names {
		ns = append(ns, k)
	}
	sort.Strings(ns)
	for _, k := range ns {
		s := C.heapSorts[k]
		n.heaps[k] = Ite(c, a.heap(k, s), b.heap(k, s))
	}
	if a.epoch == b.epoch {
		n.epoch = a.epoch
	} else {
		n.epoch = newEpoch()
		C.epochs[n.epoch] = epochInfo{cond: c, a: a.epoch, b: b.epoch, join: true}
	}
	n.alloc = Ite(c, a.alloc, b.alloc)
	// defers: common prefix kept, the rest guarded (their guards are already recorded)
	i := 0
	for i < len(a.defers) && i < len(b.defers) && a.defers[i].instr == b.defers[i].instr {
		n.defers = append(n.defers, a.defers[i])
		i++
	}
	n.defers = append(n.defers, a.defers[i:]...)
	n.defers = append(n.defers, b.defers[i:]...)
	return n
}
