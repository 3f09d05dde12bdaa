package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type StructInfo struct {
	Name   string
	Type   *types.Struct
	Fields []FieldInfo
}
type FieldInfo struct {
	Name string
	Sort Sort
	Type types.Type
}
type BoxInfo struct {
	Ctor string
	Sort Sort
	Type types.Type
}
type ImplInfo struct {
	Name  string
	Iface *types.Interface
}

var repoPkgs = map[string]bool{} // packages loaded with syntax

// external struct types whose fields are modelled (used through pointers only)
var transparent = map[string]bool{"list.Element": true}

func typeKey(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
}

func isRepoNamed(n *types.Named) bool {
	p := n.Obj().Pkg()
	return p != nil && repoPkgs[p.Path()]
}

func sortOf(t types.Type) Sort {
	t = types.Unalias(t)
	switch tt := t.(type) {
	case *types.TypeParam:
		n := "TP_" + sanitize(tt.Obj().Name())
		declSort(n)
		return Sort(n)
	case *types.Named:
		if st, ok := tt.Underlying().(*types.Struct); ok {
			if !isRepoNamed(tt) && !transparent[typeKey(t)] {
				n := "Opq_" + sanitize(typeKey(t))
				declSort(n)
				return Sort(n)
			}
			return structSort(t, st)
		}
		return sortOf(tt.Underlying())
	case *types.Basic:
		switch {
		case tt.Info()&types.IsBoolean != 0:
			return SBool
		case tt.Info()&types.IsInteger != 0:
			return SInt
		case tt.Info()&types.IsFloat != 0:
			return SReal
		case tt.Info()&types.IsString != 0:
			return SStr
		case tt.Kind() == types.UntypedNil:
			return SInt
		case tt.Kind() == types.UnsafePointer:
			return SInt
		}
		declSort("Opq_" + sanitize(tt.Name()))
		return Sort("Opq_" + sanitize(tt.Name()))
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SAny
	case *types.Array:
		return arrSort(SInt, sortOf(tt.Elem()))
	case *types.Struct:
		return structSort(t, tt)
	case *SetType:
		return arrSort(sortOf(tt.Elem), SBool)
	case *SeqType:
		return arrSort(SInt, sortOf(tt.Elem))
	case *GhostType:
		declSort("Gh_" + tt.Name)
		return Sort("Gh_" + tt.Name)
	}
	declSort("Opq_" + sanitize(t.String()))
	return Sort("Opq_" + sanitize(t.String()))
}

func declSort(n string) {
	if !C.sorts[n] {
		C.sorts[n] = true
		C.sorder = append(C.sorder, n)
	}
}

func structSort(t types.Type, st *types.Struct) Sort {
	k := "S_" + sanitize(typeKey(t))
	if _, ok := C.structs[k]; ok {
		return Sort(k)
	}
	si := &StructInfo{Name: k, Type: st}
	C.structs[k] = si
	C.storder2 = append(C.storder2, k)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		n := f.Name()
		if n == "_" {
			n = fmt.Sprintf("_%d", i)
		}
		si.Fields = append(si.Fields, FieldInfo{Name: n, Type: f.Type(), Sort: sortOf(f.Type())})
	}
	return Sort(k)
}

func structInfo(t types.Type) *StructInfo {
	s := sortOf(t)
	return C.structs[string(s)]
}

func MkStruct(t types.Type, fs []*Term) *Term {
	si := structInfo(t)
	if len(fs) != len(si.Fields) {
		panic("MkStruct arity")
	}
	// eta: mk(sel_i(x)...) = x
	if len(fs) > 0 {
		var base *Term
		ok := true
		for i, f := range fs {
			if f.Op == selName(si, i) && (base == nil || base == f.Args[0]) {
				base = f.Args[0]
			} else {
				ok = false
				break
			}
		}
		if ok && base != nil {
			return base
		}
	}
	return mk("mk-"+si.Name, Sort(si.Name), fs...)
}

func selName(si *StructInfo, i int) string { return "sel-" + si.Name + "-" + si.Fields[i].Name }

func Field(t types.Type, v *Term, i int) *Term {
	si := structInfo(t)
	if si == nil {
		panic(unsupported("field of opaque struct " + typeKey(t)))
	}
	if v.Op == "mk-"+si.Name {
		return v.Args[i]
	}
	if v.Op == "ite" && (v.Args[1].Op == "mk-"+si.Name || v.Args[2].Op == "mk-"+si.Name) {
		return Ite(v.Args[0], Field(t, v.Args[1], i), Field(t, v.Args[2], i))
	}
	return mk(selName(si, i), si.Fields[i].Sort, v)
}

func WithField(t types.Type, v *Term, i int, nv *Term) *Term {
	si := structInfo(t)
	fs := make([]*Term, len(si.Fields))
	for j := range fs {
		if j == i {
			fs[j] = nv
		} else {
			fs[j] = Field(t, v, j)
		}
	}
	return MkStruct(t, fs)
}

// slices
func MkSlice(arr, off, ln, cp *Term) *Term { return mk("mk-slice", SSlice, arr, off, ln, cp) }
func sliceSel(n string, i int, v *Term) *Term {
	if v.Op == "mk-slice" {
		return v.Args[i]
	}
	if v.Op == "ite" && (v.Args[1].Op == "mk-slice" || v.Args[2].Op == "mk-slice") {
		return Ite(v.Args[0], sliceSel(n, i, v.Args[1]), sliceSel(n, i, v.Args[2]))
	}
	return mk(n, SInt, v)
}
func SArr(v *Term) *Term { return sliceSel("s-arr", 0, v) }
func SOff(v *Term) *Term { return sliceSel("s-off", 1, v) }
func SLen(v *Term) *Term { return sliceSel("s-len", 2, v) }
func SCap(v *Term) *Term { return sliceSel("s-cap", 3, v) }
func NilSlice() *Term    { return MkSlice(Int(0), Int(0), Int(0), Int(0)) }

// interfaces
func NilAny() *Term { return mk("nilI", SAny) }
func boxInfo(t types.Type) *BoxInfo {
	t = types.Unalias(t)
	k := typeKey(t)
	if b, ok := C.boxes[k]; ok {
		return b
	}
	s := sortOf(t)
	if b, ok := C.boxes[k]; ok {
		return b
	}
	b := &BoxInfo{Ctor: fmt.Sprintf("box-%s", sanitize(k)), Sort: s, Type: t}
	for _, o := range C.boxes {
		if o.Ctor == b.Ctor {
			b.Ctor += fmt.Sprintf("$%d", len(C.boxes))
		}
	}
	C.boxes[k] = b
	C.border = append(C.border, k)
	return b
}
func Box(t types.Type, v *Term) *Term {
	b := boxInfo(t)
	if b.Sort != v.Sort {
		panic(fmt.Sprintf("Box: %s has sort %s, value %s", typeKey(t), b.Sort, v.Sort))
	}
	if v.Op == "unbox-"+b.Ctor {
		// only equal when it is that constructor; leave
	}
	return mk(b.Ctor, SAny, v)
}
func Unbox(t types.Type, v *Term) *Term {
	b := boxInfo(t)
	if v.Op == b.Ctor {
		return v.Args[0]
	}
	return mk("un"+b.Ctor, b.Sort, v)
}
func IsBox(t types.Type, v *Term) *Term {
	b := boxInfo(t)
	if isCtorApp(v) {
		return Bool(v.Op == b.Ctor)
	}
	if v.Op == "ite" {
		if isCtorApp(v.Args[1]) || isCtorApp(v.Args[2]) {
			return Ite(v.Args[0], IsBox(t, v.Args[1]), IsBox(t, v.Args[2]))
		}
	}
	return mk("is:"+b.Ctor, SBool, v)
}
func IsImpl(t types.Type, v *Term) *Term {
	it := t.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return Not(Eq(v, NilAny()))
	}
	if v.Op == "nilI" {
		return False()
	}
	for _, b := range C.boxes {
		if b.Ctor == v.Op {
			return Bool(implements(b.Type, it))
		}
	}
	k := typeKey(t)
	if _, ok := C.impls[k]; !ok {
		C.impls[k] = &ImplInfo{Name: fmt.Sprintf("impl$%d", len(C.impls)), Iface: it}
		C.iorder = append(C.iorder, k)
	}
	return mk(C.impls[k].Name, SBool, v)
}

func implements(t types.Type, it *types.Interface) bool { return types.Implements(t, it) }

// strings
func StrLit(s string) *Term {
	n, ok := C.strlits[s]
	if !ok {
		n = fmt.Sprintf("lit$%d", len(C.strlits))
		C.strlits[s] = n
		C.storder = append(C.storder, s)
	}
	return mk(n, SStr)
}
func StrLen(s *Term) *Term {
	for l, n := range C.strlits {
		if n == s.Op {
			return Int(int64(len(l)))
		}
	}
	return App("str.length", SInt, s)
}

func litText(t *Term) (string, bool) {
	for l, n := range C.strlits {
		if n == t.Op {
			return l, true
		}
	}
	return "", false
}

func StrCat(a, b *Term) *Term {
	x, ok1 := litText(a)
	y, ok2 := litText(b)
	if ok1 && ok2 {
		return StrLit(x + y)
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	Axiom("strcat", func() *Term {
		p, q := BoundVar("a", SStr), BoundVar("b", SStr)
		t := App("str.cat", SStr, p, q)
		return Forall([]*Term{p, q}, Eq(App("str.length", SInt, t), Add(App("str.length", SInt, p), App("str.length", SInt, q))), []*Term{t})
	})
	return App("str.cat", SStr, a, b)
}

func zeroOf(t types.Type) *Term {
	t = types.Unalias(t)
	s := sortOf(t)
	switch {
	case s == SInt:
		return Int(0)
	case s == SBool:
		return False()
	case s == SReal:
		return mk("0.0", SReal)
	case s == SStr:
		return StrLit("")
	case s == SSlice:
		return NilSlice()
	case s == SAny:
		return NilAny()
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		if si := C.structs[string(s)]; si != nil {
			var fs []*Term
			for i := 0; i < st.NumFields(); i++ {
				fs = append(fs, zeroOf(st.Field(i).Type()))
			}
			return MkStruct(t, fs)
		}
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return ConstArr(s, zeroOf(a.Elem()))
	}
	if st, ok := t.(*SetType); ok {
		_ = st
		return ConstArr(s, False())
	}
	return Const("zero$"+string(s), s)
}

// wt is the typing assumption about a value of type t in a state with this allocation counter.
func wt(v *Term, t types.Type, alloc *Term, depth int) *Term {
	t = types.Unalias(t)
	if isCtorApp(v) && len(v.Args) == 0 {
		return True()
	}
	if isTypeParam(t) {
		return True()
	}
	switch tt := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		if _, ok := intVal(v); ok {
			return True()
		}
		if pt, ok := tt.(*types.Pointer); ok && !isStructT(pt.Elem()) {
			ea := App("eptr.arr", SInt, v)
			return And(Lt(v, alloc), Implies(Lt(v, Int(0)), And(Lt(Int(0), ea), Lt(ea, alloc), Eq(v, EPtr(ea, App("eptr.idx", SInt, v))))))
		}
		return And(Le(Int(0), v), Lt(v, alloc))
	case *types.Slice:
		return And(Le(Int(0), SArr(v)), Lt(SArr(v), alloc), Le(Int(0), SOff(v)), Le(Int(0), SLen(v)), Le(SLen(v), SCap(v)),
			Implies(Eq(SArr(v), Int(0)), And(Eq(SCap(v), Int(0)), Eq(SOff(v), Int(0)))))
	case *types.Basic:
		if tt.Info()&types.IsUnsigned != 0 {
			c := Le(Int(0), v)
			switch tt.Kind() {
			case types.Uint8:
				c = And(c, Le(v, Int(255)))
			case types.Uint16:
				c = And(c, Le(v, Int(65535)))
			}
			return c
		}
		if tt.Info()&types.IsString != 0 {
			return Le(Int(0), StrLen(v))
		}
	case *types.Struct:
		if depth > 2 {
			return True()
		}
		if si := C.structs[string(sortOf(t))]; si != nil {
			var cs []*Term
			for i := 0; i < tt.NumFields(); i++ {
				cs = append(cs, wt(Field(t, v, i), tt.Field(i).Type(), alloc, depth+1))
			}
			return And(cs...)
		}
	case *types.Interface:
		// a boxed pointer is an allocated one
	}
	return True()
}

// ---- SMT-LIB printing ----

func opText(op string) string {
	if strings.HasPrefix(op, "-") && len(op) > 1 && op[1] >= '0' && op[1] <= '9' {
		return "(- " + op[1:] + ")"
	}
	if strings.HasPrefix(op, "is:") {
		return "(_ is " + q(op[3:]) + ")"
	}
	return q(op)
}

func q(s string) string {
	for _, r := range s {
		if r == '?' || r == '#' {
			return "|" + s + "|"
		}
	}
	return s
}

type printer struct {
	names map[int]string
	out   strings.Builder
}

func (p *printer) text(t *Term) string {
	if n, ok := p.names[t.id]; ok {
		return n
	}
	return p.body(t)
}

func (p *printer) body(t *Term) string {
	switch t.Op {
	case "forall", "exists":
		return p.quantText(t)
	case "constarr":
		return "((as const " + string(t.Sort) + ") " + p.text(t.Args[0]) + ")"
	}
	if len(t.Args) == 0 {
		return opText(t.Op)
	}
	var b strings.Builder
	b.WriteString("(" + opText(t.Op))
	for _, a := range t.Args {
		b.WriteByte(' ')
		b.WriteString(p.text(a))
	}
	b.WriteByte(')')
	return b.String()
}

func (p *printer) quantText(t *Term) string {
	// shared open subterms of the body become lets
	refs := map[int]int{}
	var order []*Term
	var walk func(x *Term)
	walk = func(x *Term) {
		if len(x.fv) == 0 {
			return
		}
		refs[x.id]++
		if refs[x.id] > 1 {
			return
		}
		order = append(order, x)
		if x.Op == "forall" || x.Op == "exists" {
			return
		}
		for _, a := range x.Args {
			walk(a)
		}
	}
	body := t.Args[0]
	walk(body)
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	var lets []string
	saved := map[int]string{}
	var added []int
	for _, x := range order {
		if refs[x.id] > 1 && len(x.Args) > 0 && x != body {
			if old, ok := p.names[x.id]; ok {
				saved[x.id] = old
				continue
			}
			n := fmt.Sprintf("?l%d", x.id)
			txt := p.body(x)
			lets = append(lets, fmt.Sprintf("(let ((|%s| %s)) ", n, txt))
			p.names[x.id] = "|" + n + "|"
			added = append(added, x.id)
		}
	}
	bt := p.text(body)
	for _, id := range added {
		delete(p.names, id)
	}
	bt = strings.Join(lets, "") + bt + strings.Repeat(")", len(lets))
	var b strings.Builder
	b.WriteString("(" + t.Op + " (")
	for _, v := range t.bv {
		fmt.Fprintf(&b, "(%s %s)", q(v.Op), v.Sort)
	}
	b.WriteString(") ")
	if len(t.pats) > 0 {
		b.WriteString("(! " + bt)
		for _, pt := range t.pats {
			b.WriteString(" :pattern (")
			for i, x := range pt {
				if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(p.text(x))
			}
			b.WriteString(")")
		}
		b.WriteString(")")
	} else {
		b.WriteString(bt)
	}
	b.WriteString(")")
	return b.String()
}

func smtPrelude(used map[string]bool) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	b.WriteString("(declare-sort Str 0)\n")
	for _, s := range C.sorder {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	// one mutually recursive block of datatypes
	var heads, bodies []string
	heads = append(heads, "(Slice 0)")
	bodies = append(bodies, "((mk-slice (s-arr Int) (s-off Int) (s-len Int) (s-cap Int)))")
	heads = append(heads, "(Any 0)")
	var any strings.Builder
	any.WriteString("((nilI) (otherI (o-tag Int) (o-id Int))")
	for _, k := range C.border {
		bi := C.boxes[k]
		fmt.Fprintf(&any, " (%s (un%s %s))", bi.Ctor, bi.Ctor, bi.Sort)
	}
	any.WriteString(")")
	bodies = append(bodies, any.String())
	for _, k := range C.storder2 {
		si := C.structs[k]
		heads = append(heads, fmt.Sprintf("(%s 0)", k))
		var x strings.Builder
		fmt.Fprintf(&x, "((mk-%s", k)
		for i, f := range si.Fields {
			fmt.Fprintf(&x, " (%s %s)", selName(si, i), f.Sort)
		}
		x.WriteString("))")
		bodies = append(bodies, x.String())
	}
	fmt.Fprintf(&b, "(declare-datatypes (%s) (\n%s))\n", strings.Join(heads, " "), strings.Join(bodies, "\n"))
	for _, k := range C.iorder {
		ii := C.impls[k]
		fmt.Fprintf(&b, "(declare-fun %s$other (Int) Bool)\n", ii.Name)
		fmt.Fprintf(&b, "(define-fun %s ((x Any)) Bool (or (and ((_ is otherI) x) (%s$other (o-tag x)))", ii.Name, ii.Name)
		for _, bk := range C.border {
			bi := C.boxes[bk]
			if implements(bi.Type, ii.Iface) {
				fmt.Fprintf(&b, " ((_ is %s) x)", bi.Ctor)
			}
		}
		b.WriteString("))\n")
	}
	for i, s := range C.storder {
		fmt.Fprintf(&b, "(declare-const lit$%d Str) ; %q\n", i, s)
	}
	if len(C.storder) > 1 {
		b.WriteString("(assert (distinct")
		for i := range C.storder {
			fmt.Fprintf(&b, " lit$%d", i)
		}
		b.WriteString("))\n")
	}
	for _, n := range C.corder {
		if used == nil || used[n] {
			fmt.Fprintf(&b, "(declare-const %s %s)\n", q(n), C.consts[n])
		}
	}
	for _, n := range C.forder {
		if used == nil || used[n] {
			s := C.funcs[n]
			fmt.Fprintf(&b, "(declare-fun %s %s)\n", q(n), s)
		}
	}
	if C.funcs["str.length"] != "" && (used == nil || used["str.length"]) {
		for i, s := range C.storder {
			fmt.Fprintf(&b, "(assert (= (str.length lit$%d) %d))\n", i, len(s))
		}
	}
	return b.String()
}

// ghostSyms: the ghost function symbols in t.
func ghostSyms(t *Term, seen map[int]bool, out map[string]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if strings.HasPrefix(t.Op, "gh$") {
		out[t.Op] = true
	}
	for _, a := range t.Args {
		ghostSyms(a, seen, out)
	}
}

// relevantAxioms leaves out the axioms none of whose ghost functions occur.
func relevantAxioms(base []*Term) []*Term {
	have := map[string]bool{}
	seen := map[int]bool{}
	for _, t := range base {
		ghostSyms(t, seen, have)
	}
	in := make([]bool, len(C.axioms))
	syms := make([]map[string]bool, len(C.axioms))
	for i, a := range C.axioms {
		syms[i] = map[string]bool{}
		ghostSyms(a, map[int]bool{}, syms[i])
		if len(syms[i]) == 0 {
			in[i] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for i := range C.axioms {
			if in[i] {
				continue
			}
			for s := range syms[i] {
				if have[s] {
					in[i] = true
				}
			}
			if in[i] {
				ch = true
				for s := range syms[i] {
					have[s] = true
				}
			}
		}
	}
	var r []*Term
	for i, a := range C.axioms {
		if in[i] {
			r = append(r, a)
		}
	}
	return r
}

// splitGoal takes the negated goal apart: its conjuncts, and the variables of outer universal quantifiers as constants.
func splitGoal(g *Term) (parts, skolems []*Term) {
	var pos, neg func(t *Term)
	seen := map[int]bool{}
	pos = func(t *Term) {
		switch {
		case t.Op == "and":
			for _, a := range t.Args {
				pos(a)
			}
		case t.Op == "not" && len(t.Args) == 1:
			neg(t.Args[0])
		default:
			parts = append(parts, t)
		}
	}
	neg = func(t *Term) {
		switch {
		case t.Op == "=>" && len(t.Args) == 2:
			pos(t.Args[0])
			neg(t.Args[1])
		case t.Op == "or":
			for _, a := range t.Args {
				neg(a)
			}
		case t.Op == "not" && len(t.Args) == 1:
			pos(t.Args[0])
		case t.Op == "forall":
			for _, v := range t.bv {
				if seen[v.id] {
					parts = append(parts, Not(t))
					return
				}
			}
			for _, v := range t.bv {
				seen[v.id] = true
				skolems = append(skolems, v)
			}
			neg(t.Args[0])
		default:
			parts = append(parts, Not(t))
		}
	}
	pos(g)
	return parts, skolems
}

// smtQuery prints assumptions and the negated goal.
func smtQuery(assumptions []*Term, negGoal *Term) string {
	parts, skolems := splitGoal(negGoal)
	base := append(append([]*Term{}, assumptions...), parts...)
	roots := append(relevantAxioms(base), base...)
	refs := map[int]int{}
	var order []*Term
	used := map[string]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		refs[t.id]++
		if refs[t.id] > 1 {
			return
		}
		used[t.Op] = true
		for _, a := range t.Args {
			walk(a)
		}
		for _, ps := range t.pats {
			for _, x := range ps {
				walk(x)
			}
		}
		order = append(order, t)
	}
	for _, r := range roots {
		walk(r)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	p := &printer{names: map[int]string{}}
	var b strings.Builder
	b.WriteString(smtPrelude(used))
	for _, v := range skolems {
		fmt.Fprintf(&b, "(declare-const |%s| %s)\n", v.Op, v.Sort)
	}
	for _, t := range order {
		if len(t.fv) == 0 && len(t.Args) > 0 && refs[t.id] > 1 {
			txt := p.body(t)
			n := fmt.Sprintf("?d%d", t.id)
			fmt.Fprintf(&b, "(define-fun |%s| () %s %s)\n", n, t.Sort, txt)
			p.names[t.id] = "|" + n + "|"
		}
	}
	for _, r := range roots {
		fmt.Fprintf(&b, "(assert %s)\n", p.text(r))
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

type unsup struct{ msg string }

func unsupported(m string) unsup { return unsup{m} }
