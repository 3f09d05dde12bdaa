package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sort is the text of an SMT-LIB sort.
type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SReal  Sort = "Real"
	SStr   Sort = "Str"
	SAny   Sort = "Any"
	SSlice Sort = "Slice"
)

func arrSort(i, e Sort) Sort { return Sort("(Array " + string(i) + " " + string(e) + ")") }

// arrParts splits "(Array I E)".
func arrParts(s Sort) (Sort, Sort) {
	t := string(s)
	if !strings.HasPrefix(t, "(Array ") {
		panic(fmt.Sprintf("not an array sort: %s", s))
	}
	t = t[len("(Array ") : len(t)-1]
	d := 0
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(t[:i]), Sort(t[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

// Term is a hash-consed SMT term.
type Term struct {
	Op   string
	Args []*Term
	Sort Sort
	id   int
	seq  int   // largest creation sequence number of a constant in it
	fv   []int // free bound variables
	bv   []*Term
	pats [][]*Term
	key  string
}

// Ctx holds everything of one verification unit (one function under contract).
type Ctx struct {
	terms     map[string]*Term
	nterm     int
	nseq      int
	consts    map[string]Sort // declared constants
	corder    []string
	fresh     map[string]int
	funcs     map[string]string // declared uninterpreted functions: name -> "(args) res"
	forder    []string
	sorts     map[string]bool // uninterpreted sorts
	sorder    []string
	strlits   map[string]string // literal -> const name
	storder   []string
	structs   map[string]*StructInfo
	storder2  []string
	boxes     map[string]*BoxInfo // by type string
	border    []string
	impls     map[string]*ImplInfo
	iorder    []string
	axioms    []*Term
	axname    map[string]bool
	epochs    []epochInfo
	nepoch    int
	heapSorts map[string]Sort
}

type epochInfo struct {
	cond *Term
	a, b int
	join bool
}

func newCtx() *Ctx {
	c := &Ctx{terms: map[string]*Term{}, consts: map[string]Sort{}, fresh: map[string]int{}, funcs: map[string]string{},
		sorts: map[string]bool{}, strlits: map[string]string{}, structs: map[string]*StructInfo{}, boxes: map[string]*BoxInfo{},
		impls: map[string]*ImplInfo{}, axname: map[string]bool{}, heapSorts: map[string]Sort{}}
	c.epochs = []epochInfo{{}}
	return c
}

var C *Ctx

func mk(op string, s Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(string(s))
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := C.terms[k]; ok {
		return t
	}
	t := &Term{Op: op, Args: args, Sort: s, key: k}
	for _, a := range args {
		if a.seq > t.seq {
			t.seq = a.seq
		}
		t.fv = mergeInts(t.fv, a.fv)
	}
	C.nterm++
	t.id = C.nterm
	C.terms[k] = t
	return t
}

func mergeInts(a, b []int) []int {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	m := map[int]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	r := make([]int, 0, len(m))
	for x := range m {
		r = append(r, x)
	}
	sort.Ints(r)
	return r
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '$', r == '!', r == '@':
			b.WriteRune(r)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

// Const declares (or reuses) a constant with exactly this name.
func Const(name string, s Sort) *Term {
	name = sanitize(name)
	if old, ok := C.consts[name]; ok {
		if old != s {
			panic(fmt.Sprintf("constant %s redeclared: %s vs %s", name, old, s))
		}
		return C.terms["const:"+name]
	}
	C.consts[name] = s
	C.corder = append(C.corder, name)
	C.nseq++
	C.nterm++
	t := &Term{Op: name, Sort: s, id: C.nterm, seq: C.nseq, key: "const:" + name}
	C.terms[t.key] = t
	return t
}

// Fresh makes a new constant.
func Fresh(base string, s Sort) *Term {
	base = sanitize(base)
	if base == "" {
		base = "v"
	}
	for {
		C.fresh[base]++
		n := fmt.Sprintf("%s!%d", base, C.fresh[base])
		if _, ok := C.consts[n]; !ok {
			return Const(n, s)
		}
	}
}

// BoundVar makes a bound variable.
func BoundVar(base string, s Sort) *Term {
	C.fresh["?"+base]++
	C.nterm++
	t := &Term{Op: fmt.Sprintf("%s?%d", sanitize(base), C.fresh["?"+base]), Sort: s, id: C.nterm}
	t.fv = []int{t.id}
	t.key = "bv:" + t.Op
	C.terms[t.key] = t
	return t
}

func quant(kind string, vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body.Op == "true" || body.Op == "false" {
		return body
	}
	// drop unused
	var used []*Term
	for _, v := range vars {
		for _, f := range body.fv {
			if f == v.id {
				used = append(used, v)
				break
			}
		}
	}
	if len(used) == 0 {
		return body
	}
	var b strings.Builder
	b.WriteString(kind)
	for _, v := range used {
		fmt.Fprintf(&b, " %d", v.id)
	}
	fmt.Fprintf(&b, ":%d:%d", body.id, len(pats))
	for _, p := range pats {
		for _, q := range p {
			fmt.Fprintf(&b, ",%d", q.id)
		}
	}
	k := b.String()
	if t, ok := C.terms[k]; ok {
		return t
	}
	C.nterm++
	t := &Term{Op: kind, Args: []*Term{body}, Sort: SBool, id: C.nterm, seq: body.seq, bv: used, pats: pats, key: k}
	for _, f := range body.fv {
		bound := false
		for _, v := range used {
			if v.id == f {
				bound = true
			}
		}
		if !bound {
			t.fv = append(t.fv, f)
		}
	}
	C.terms[k] = t
	return t
}

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", vars, body, pats...)
}
func Exists(vars []*Term, body *Term) *Term { return quant("exists", vars, body) }

func True() *Term  { return mk("true", SBool) }
func False() *Term { return mk("false", SBool) }
func Bool(b bool) *Term {
	if b {
		return True()
	}
	return False()
}
func Int(i int64) *Term { return BigInt(big.NewInt(i)) }
func BigInt(i *big.Int) *Term {
	if i.Sign() < 0 {
		return mk("-"+new(big.Int).Neg(i).String(), SInt)
	}
	return mk(i.String(), SInt)
}
func intVal(t *Term) (*big.Int, bool) {
	if t.Sort != SInt || len(t.Args) != 0 || t.Op == "" {
		return nil, false
	}
	c := t.Op[0]
	if (c >= '0' && c <= '9') || (c == '-' && len(t.Op) > 1) {
		return new(big.Int).SetString(t.Op, 10)
	}
	return nil, false
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False()
	case "false":
		return True()
	case "not":
		return a.Args[0]
	}
	return mk("not", SBool, a)
}

func And(as ...*Term) *Term {
	var r []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.Op == "true" || seen[a.id] {
			return true
		}
		if a.Op == "false" {
			return false
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if a.Op == "not" && seen[a.Args[0].id] {
			return false
		}
		seen[a.id] = true
		r = append(r, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False()
		}
	}
	for _, a := range r {
		if a.Op == "not" && seen[a.Args[0].id] {
			return False()
		}
	}
	if len(r) == 0 {
		return True()
	}
	if len(r) == 1 {
		return r[0]
	}
	return mk("and", SBool, r...)
}

func Or(as ...*Term) *Term {
	var r []*Term
	seen := map[int]bool{}
	for _, a := range as {
		xs := []*Term{a}
		if a.Op == "or" {
			xs = a.Args
		}
		for _, x := range xs {
			if x.Op == "true" {
				return True()
			}
			if x.Op == "false" || seen[x.id] {
				continue
			}
			seen[x.id] = true
			r = append(r, x)
		}
	}
	for _, a := range r {
		if a.Op == "not" && seen[a.Args[0].id] {
			return True()
		}
	}
	if len(r) == 0 {
		return False()
	}
	if len(r) == 1 {
		return r[0]
	}
	// (g and c) or (g and not c) -> g
	if len(r) == 2 {
		if t := orFactor(r[0], r[1]); t != nil {
			return t
		}
	}
	return mk("or", SBool, r...)
}

func conj(a *Term) []*Term {
	if a.Op == "and" {
		return a.Args
	}
	return []*Term{a}
}

func orFactor(a, b *Term) *Term {
	x, y := conj(a), conj(b)
	in := map[int]bool{}
	for _, t := range x {
		in[t.id] = true
	}
	var common, ry []*Term
	cm := map[int]bool{}
	for _, t := range y {
		if in[t.id] {
			common = append(common, t)
			cm[t.id] = true
		} else {
			ry = append(ry, t)
		}
	}
	if len(common) == 0 {
		return nil
	}
	var rx []*Term
	for _, t := range x {
		if !cm[t.id] {
			rx = append(rx, t)
		}
	}
	return And(append(append([]*Term{}, common...), Or(And(rx...), And(ry...)))...)
}

func Implies(a, b *Term) *Term {
	if a.Op == "true" {
		return b
	}
	if a.Op == "false" || b.Op == "true" {
		return True()
	}
	if a == b {
		return True()
	}
	if b.Op == "false" {
		return Not(a)
	}
	if b.Op == "=>" {
		return Implies(And(a, b.Args[0]), b.Args[1])
	}
	return mk("=>", SBool, a, b)
}

func isCtorApp(t *Term) bool {
	return strings.HasPrefix(t.Op, "mk-") || strings.HasPrefix(t.Op, "box-") || t.Op == "nilI"
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True()
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq on different sorts: %s:%s and %s:%s", show(a), a.Sort, show(b), b.Sort))
	}
	if x, ok := intVal(a); ok {
		if y, ok := intVal(b); ok {
			return Bool(x.Cmp(y) == 0)
		}
	}
	if a.Sort == SBool {
		switch {
		case a.Op == "true":
			return b
		case b.Op == "true":
			return a
		case a.Op == "false":
			return Not(b)
		case b.Op == "false":
			return Not(a)
		}
	}
	if a.Sort == SStr {
		_, x := litOf(a)
		_, y := litOf(b)
		if x && y {
			return False()
		}
	}
	if isCtorApp(a) && isCtorApp(b) {
		if a.Op != b.Op {
			return False()
		}
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if b.id < a.id {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}

func litOf(t *Term) (string, bool) {
	if strings.HasPrefix(t.Op, "lit$") {
		return t.Op, true
	}
	return "", false
}

func Ite(c, a, b *Term) *Term {
	if c.Op == "true" {
		return a
	}
	if c.Op == "false" {
		return b
	}
	if a == b {
		return a
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Ite on different sorts: %s and %s", a.Sort, b.Sort))
	}
	if a.Sort == SBool {
		if a.Op == "true" && b.Op == "false" {
			return c
		}
		if a.Op == "false" && b.Op == "true" {
			return Not(c)
		}
		if a.Op == "true" {
			return Or(c, b)
		}
		if b.Op == "false" {
			return And(c, a)
		}
		if a.Op == "false" {
			return And(Not(c), b)
		}
		if b.Op == "true" {
			return Or(Not(c), a)
		}
	}
	// ite(c, ite(c, x, y), z)
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	// same constructor: push inside
	if isCtorApp(a) && isCtorApp(b) && a.Op == b.Op && len(a.Args) > 0 {
		args := make([]*Term, len(a.Args))
		for i := range args {
			args[i] = Ite(c, a.Args[i], b.Args[i])
		}
		return mk(a.Op, a.Sort, args...)
	}
	return mk("ite", a.Sort, c, a, b)
}

// linear normal form helpers: term = const + sum coef*atom
func linear(t *Term) (map[*Term]*big.Int, *big.Int) {
	m := map[*Term]*big.Int{}
	k := new(big.Int)
	var rec func(t *Term, c *big.Int)
	rec = func(t *Term, c *big.Int) {
		if v, ok := intVal(t); ok {
			k.Add(k, new(big.Int).Mul(c, v))
			return
		}
		switch t.Op {
		case "+":
			for _, a := range t.Args {
				rec(a, c)
			}
			return
		case "-":
			if len(t.Args) == 1 {
				rec(t.Args[0], new(big.Int).Neg(c))
				return
			}
			rec(t.Args[0], c)
			for _, a := range t.Args[1:] {
				rec(a, new(big.Int).Neg(c))
			}
			return
		case "*":
			if len(t.Args) == 2 {
				if v, ok := intVal(t.Args[0]); ok {
					rec(t.Args[1], new(big.Int).Mul(c, v))
					return
				}
				if v, ok := intVal(t.Args[1]); ok {
					rec(t.Args[0], new(big.Int).Mul(c, v))
					return
				}
			}
		}
		if m[t] == nil {
			m[t] = new(big.Int)
		}
		m[t].Add(m[t], c)
	}
	rec(t, big.NewInt(1))
	for a, c := range m {
		if c.Sign() == 0 {
			delete(m, a)
		}
	}
	return m, k
}

func fromLinear(m map[*Term]*big.Int, k *big.Int) *Term {
	var atoms []*Term
	for a := range m {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	var parts []*Term
	for _, a := range atoms {
		if m[a].IsInt64() && m[a].Int64() == 1 {
			parts = append(parts, a)
		} else {
			parts = append(parts, mk("*", SInt, BigInt(m[a]), a))
		}
	}
	if k.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, BigInt(k))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk("+", SInt, parts...)
}

func Add(a, b *Term) *Term {
	if a.Sort == SReal {
		return mk("+", SReal, a, b)
	}
	return fromLinear(linear(mk("+", SInt, a, b)))
}
func Sub(a, b *Term) *Term {
	if a.Sort == SReal {
		return mk("-", SReal, a, b)
	}
	return fromLinear(linear(mk("-", SInt, a, b)))
}
func Neg(a *Term) *Term {
	if a.Sort == SReal {
		return mk("-", SReal, a)
	}
	return fromLinear(linear(mk("-", SInt, a)))
}
func Mul(a, b *Term) *Term {
	if a.Sort == SReal {
		return mk("*", SReal, a, b)
	}
	_, x := intVal(a)
	_, y := intVal(b)
	if x || y {
		return fromLinear(linear(mk("*", SInt, a, b)))
	}
	if b.id < a.id {
		a, b = b, a
	}
	return mk("*", SInt, a, b)
}
func cmpOp(op string, a, b *Term) *Term {
	if a.Sort == SInt {
		m, k := linear(mk("-", SInt, a, b))
		if len(m) == 0 {
			s := k.Sign()
			switch op {
			case "<":
				return Bool(s < 0)
			case "<=":
				return Bool(s <= 0)
			}
		}
	}
	return mk(op, SBool, a, b)
}
func Lt(a, b *Term) *Term { return cmpOp("<", a, b) }
func Le(a, b *Term) *Term { return cmpOp("<=", a, b) }
func Gt(a, b *Term) *Term { return Lt(b, a) }
func Ge(a, b *Term) *Term { return Le(b, a) }

func provablyDistinct(a, b *Term) bool {
	if a.Sort == SInt {
		m, k := linear(mk("-", SInt, a, b))
		return len(m) == 0 && k.Sign() != 0
	}
	if a.Sort == SStr {
		_, x := litOf(a)
		_, y := litOf(b)
		return x && y && a != b
	}
	if isCtorApp(a) && isCtorApp(b) {
		return Eq(a, b).Op == "false"
	}
	return false
}

func Select(a, i *Term) *Term {
	_, es := arrParts(a.Sort)
	for a.Op == "store" {
		if a.Args[1] == i {
			return a.Args[2]
		}
		if provablyDistinct(a.Args[1], i) {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	if a.Op == "ite" && (a.Args[1].Op == "store" || a.Args[2].Op == "store") {
		// push select into ite when it simplifies on at least one side
		x, y := Select(a.Args[1], i), Select(a.Args[2], i)
		if x.Op != "select" || y.Op != "select" || x == y {
			return Ite(a.Args[0], x, y)
		}
	}
	is, _ := arrParts(a.Sort)
	if is != i.Sort {
		panic(fmt.Sprintf("select: index sort %s into %s (%s)", i.Sort, a.Sort, show(a)))
	}
	return mk("select", es, a, i)
}

func Store(a, i, v *Term) *Term {
	is, es := arrParts(a.Sort)
	if es != v.Sort || is != i.Sort {
		panic(fmt.Sprintf("store sort mismatch: %s <- [%s] %s", a.Sort, i.Sort, v.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", a.Sort, a, i, v)
}

func ConstArr(s Sort, v *Term) *Term { return mk("constarr", s, v) }

// App applies an uninterpreted function (declared on the fly).
func App(name string, res Sort, args ...*Term) *Term {
	name = sanitize(name)
	var as []string
	for _, a := range args {
		as = append(as, string(a.Sort))
	}
	sig := "(" + strings.Join(as, " ") + ") " + string(res)
	if len(args) == 0 {
		return Const(name, res)
	}
	if old, ok := C.funcs[name]; ok {
		if old != sig {
			panic(fmt.Sprintf("function %s redeclared: %s vs %s", name, old, sig))
		}
	} else {
		C.funcs[name] = sig
		C.forder = append(C.forder, name)
	}
	return mk(name, res, args...)
}

func Axiom(name string, f func() *Term) {
	if C.axname[name] {
		return
	}
	C.axname[name] = true
	C.axioms = append(C.axioms, f())
}

func show(t *Term) string { return showD(t, 6) }
func showD(t *Term, d int) string {
	if len(t.Args) == 0 {
		return t.Op
	}
	if d == 0 {
		return "…"
	}
	var b strings.Builder
	b.WriteString("(" + t.Op)
	if t.Op == "forall" || t.Op == "exists" {
		b.WriteString(" (")
		for _, v := range t.bv {
			b.WriteString(v.Op + " ")
		}
		b.WriteString(")")
	}
	for _, a := range t.Args {
		b.WriteString(" " + showD(a, d-1))
	}
	b.WriteString(")")
	return b.String()
}
