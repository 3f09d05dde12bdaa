package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"
)

// ---------- specification-only types ----------

// SetType is set[T] (a total map from T to Bool); GhostType is an uninterpreted sort.
type SetType struct{ Elem types.Type }

func (s *SetType) Underlying() types.Type { return s }
func (s *SetType) String() string         { return "set[" + s.Elem.String() + "]" }

type SeqType struct{ Elem types.Type }

func (s *SeqType) Underlying() types.Type { return s }
func (s *SeqType) String() string         { return "seq[" + s.Elem.String() + "]" }

type GhostType struct{ Name string }

func (g *GhostType) Underlying() types.Type { return g }
func (g *GhostType) String() string         { return "ghost." + g.Name }

// ---------- contract files ----------

type Clause struct {
	Name  string
	Label string
	Text  string
	Ex    Expr
	File  string
	Line  int
}

type LoopSpec struct {
	Inv       []Clause
	Decreases *Clause
	Modifies  []Clause
}

type Contract struct {
	Pkg       string // package path
	Key       string
	View      string
	Props     []string
	Requires  []Clause
	Ensures   []Clause
	Modifies  []Clause
	ModAll    bool
	HasMod    bool
	Loops     map[int]*LoopSpec
	NoPanic   bool
	Panics    bool
	Pure      bool
	Extern    bool
	NoAlloc   bool // nothing is allocated
	Helper    bool // may disappear
	NoFrame   bool
	Decreases *Clause
	Params    []string
	Results   []string
	Asserts   []Clause
	OnCall    []Clause // facts at every call of a function: Label is NAME or NAME/label
	Inline    []string // callee keys to inline although under contract
	Opaque    []string // callee keys not to inline (havoc)
	Timeout   int
	Dispatch  []string
	Cases     []Clause
	File      string
	Line      int
	Why       string
	LoopPool  []Clause
	Fallback  bool
	Chain     bool // each postcondition may use the ones before it
}

type Macro struct {
	Name   string
	Params []string
	Body   Expr
}

type GhostFn struct {
	Name string
	Args []string // type texts
	Res  string
}

type AxiomDecl struct {
	Name  string
	Ex    Expr
	Text  string
	Lemma bool
	Props []string
	Pkg   string
	File  string
	Line  int
	Needs []string
}

type Specs struct {
	Contracts map[string]*Contract // pkgpath + "::" + key, externs with full key
	Order     []string
	Macros    map[string]*Macro
	Ghosts    map[string]*GhostFn
	GhostVars map[string]*GhostFn // ghost state: name -> arg/res types (heap keyed by arg)
	GTypes    map[string]bool
	Axioms    []*AxiomDecl
}

var clauseKeys = map[string]bool{"package": true, "func": true, "extern": true, "macro": true, "ghost": true, "ghostvar": true, "ghosttype": true, "axiom": true, "lemma": true,
	"props": true, "requires": true, "ensures": true, "modifies": true, "loop": true, "invariant": true, "decreases": true, "nopanic": true, "panics": true, "pure": true, "noalloc": true,
	"helper": true, "noframe": true, "assert": true, "oncall": true, "inline": true, "opaque": true, "timeout": true, "dispatch": true, "needs": true, "poolinv": true, "case": true, "fallback": true, "chain": true}

var onlyRe = regexp.MustCompile(`(?m)^// only (\w+)$`)

type specErr struct{ msg string }

// parseSpecDir reads the contracts. A file with the line "// only ID" counts for that property alone: the others use
// their own, more abstract, contracts for the same functions.
func parseSpecDir(dir, prop string) *Specs {
	sp := &Specs{Contracts: map[string]*Contract{}, Macros: map[string]*Macro{}, Ghosts: map[string]*GhostFn{}, GhostVars: map[string]*GhostFn{}, GTypes: map[string]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(specErr{err.Error()})
		}
		if only := onlyRe.FindStringSubmatch(string(b)); only != nil && prop != "" && prop != only[1] {
			continue
		}
		sp.parseFile(f, string(b))
	}
	return sp
}

func (sp *Specs) parseFile(file, txt string) {
	type rawClause struct {
		kw, body string
		line     int
	}
	var raws []rawClause
	for i, l := range strings.Split(txt, "\n") {
		if j := strings.Index(l, "//"); j >= 0 {
			l = l[:j]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := t
		if j := strings.IndexFunc(t, unicode.IsSpace); j >= 0 {
			w = t[:j]
		}
		if clauseKeys[w] {
			raws = append(raws, rawClause{w, strings.TrimSpace(t[len(w):]), i + 1})
		} else if len(raws) > 0 {
			raws[len(raws)-1].body += " " + t
		} else {
			panic(specErr{fmt.Sprintf("%s:%d: text before any clause", file, i+1)})
		}
	}
	pkg := ""
	var cur *Contract
	var curAx *AxiomDecl
	curLoop := -1
	for _, r := range raws {
		fail := func(m string) { panic(specErr{fmt.Sprintf("%s:%d: %s: %s", file, r.line, r.kw, m)}) }
		clause := func() Clause {
			c := Clause{Text: r.body, File: file, Line: r.line}
			b := r.body
			if strings.HasPrefix(b, "[") {
				j := strings.Index(b, "]")
				c.Label = b[1:j]
				b = strings.TrimSpace(b[j+1:])
				c.Text = b
			}
			e, err := parseExpr(b)
			if err != nil {
				fail(err.Error())
			}
			c.Ex = e
			return c
		}
		switch r.kw {
		case "package":
			pkg = r.body
		case "func", "extern":
			curAx = nil
			curLoop = -1
			cur = &Contract{Pkg: pkg, Loops: map[int]*LoopSpec{}, Extern: r.kw == "extern", File: file, Line: r.line}
			body := r.body
			// optional explicit names: key(a, b) (r1, r2) separated from key by " :"
			if j := strings.Index(body, " : "); j >= 0 {
				names := strings.TrimSpace(body[j+3:])
				body = strings.TrimSpace(body[:j])
				parts := strings.SplitN(names, "->", 2)
				cur.Params = splitNames(parts[0])
				if len(parts) == 2 {
					cur.Results = splitNames(parts[1])
				}
			}
			// "func F view V" is a second contract of F, verified on its own and not used by F's callers
			if j := strings.Index(body, " view "); j >= 0 {
				cur.View = "#" + strings.TrimSpace(body[j+6:])
				body = strings.TrimSpace(body[:j])
			}
			cur.Key = body
			k := pkg + "::" + body + cur.View
			if cur.Extern {
				k = body
			}
			if sp.Contracts[k] != nil {
				fail("duplicate contract " + k)
			}
			sp.Contracts[k] = cur
			sp.Order = append(sp.Order, k)
		case "macro":
			j := strings.Index(r.body, "(")
			e := strings.Index(r.body, ")")
			eq := strings.Index(r.body[e:], "=") + e
			ex, err := parseExpr(r.body[eq+1:])
			if err != nil {
				fail(err.Error())
			}
			n := strings.TrimSpace(r.body[:j])
			if sp.Macros[n] != nil {
				fail("duplicate macro " + n)
			}
			sp.Macros[n] = &Macro{Name: n, Params: splitNames(r.body[j+1 : e]), Body: ex}
		case "ghosttype":
			sp.GTypes[r.body] = true
		case "ghost", "ghostvar":
			j := strings.Index(r.body, "(")
			e := strings.LastIndex(r.body, ")")
			g := &GhostFn{Name: strings.TrimSpace(r.body[:j]), Res: strings.TrimSpace(r.body[e+1:])}
			if a := strings.TrimSpace(r.body[j+1 : e]); a != "" {
				for _, x := range strings.Split(a, ";") {
					g.Args = append(g.Args, strings.TrimSpace(x))
				}
			}
			if r.kw == "ghost" {
				sp.Ghosts[g.Name] = g
			} else {
				sp.GhostVars[g.Name] = g
			}
		case "axiom", "lemma":
			j := strings.Index(r.body, ":")
			ex, err := parseExpr(r.body[j+1:])
			if err != nil {
				fail(err.Error())
			}
			curAx = &AxiomDecl{Name: strings.TrimSpace(r.body[:j]), Ex: ex, Text: strings.TrimSpace(r.body[j+1:]), Lemma: r.kw == "lemma", Pkg: pkg, File: file, Line: r.line}
			sp.Axioms = append(sp.Axioms, curAx)
			cur = nil
		case "props":
			if curAx != nil {
				curAx.Props = splitNames(r.body)
			} else {
				cur.Props = splitNames(r.body)
			}
		case "needs":
			curAx.Needs = splitNames(r.body)
		case "requires":
			cur.Requires = append(cur.Requires, clause())
		case "ensures":
			cur.Ensures = append(cur.Ensures, clause())
		case "case":
			cur.Cases = append(cur.Cases, clause())
		case "assert":
			cur.Asserts = append(cur.Asserts, clause())
		case "oncall": // oncall NAME [label] expr, over the parameters of the callee and of this function
			i := strings.IndexAny(r.body, " \t")
			name := r.body[:i]
			r.body = strings.TrimSpace(r.body[i:])
			c := clause()
			c.Name = name
			cur.OnCall = append(cur.OnCall, c)
		case "modifies":
			if curLoop >= 0 {
				for _, p := range splitTop(r.body) {
					e, err := parseExpr(p)
					if err != nil {
						fail(err.Error())
					}
					cur.Loops[curLoop].Modifies = append(cur.Loops[curLoop].Modifies, Clause{Text: p, Ex: e})
				}
				continue
			}
			cur.HasMod = true
			for _, p := range splitTop(r.body) {
				switch p {
				case "all":
					cur.ModAll = true
				case "nothing":
				default:
					e, err := parseExpr(p)
					if err != nil {
						fail(err.Error())
					}
					cur.Modifies = append(cur.Modifies, Clause{Text: p, Ex: e})
				}
			}
		case "loop":
			fmt.Sscanf(r.body, "%d", &curLoop)
			if cur.Loops[curLoop] == nil {
				cur.Loops[curLoop] = &LoopSpec{}
			}
		case "invariant":
			cur.Loops[curLoop].Inv = append(cur.Loops[curLoop].Inv, clause())
		case "poolinv":
			cur.LoopPool = append(cur.LoopPool, clause())
		case "decreases":
			c := clause()
			if curLoop >= 0 {
				cur.Loops[curLoop].Decreases = &c
			} else {
				cur.Decreases = &c
			}
		case "nopanic":
			cur.NoPanic = true
		case "panics":
			cur.Panics = true
		case "pure":
			cur.Pure = true
		case "helper":
			cur.Helper = true
		case "noalloc":
			cur.NoAlloc = true
		case "fallback":
			cur.Fallback = true
		case "chain":
			cur.Chain = true
		case "noframe":
			cur.NoFrame = true
		case "inline":
			cur.Inline = append(cur.Inline, strings.Fields(r.body)...)
		case "opaque":
			cur.Opaque = append(cur.Opaque, strings.Fields(r.body)...)
		case "dispatch":
			cur.Dispatch = append(cur.Dispatch, strings.Fields(r.body)...)
		case "timeout":
			fmt.Sscanf(r.body, "%d", &cur.Timeout)
		}
	}
}

func splitNames(s string) []string {
	var r []string
	for _, x := range strings.FieldsFunc(s, func(r rune) bool { return r == ',' || unicode.IsSpace(r) }) {
		r = append(r, x)
	}
	return r
}

// splitTop splits at top-level commas.
func splitTop(s string) []string {
	var r []string
	d, last := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				r = append(r, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[last:]); t != "" {
		r = append(r, t)
	}
	return r
}

// ---------- expressions ----------

type Expr interface{}
type (
	EIdent struct{ Name string }
	EInt   struct{ V string }
	EStr   struct{ V string }
	EBin   struct {
		Op   string
		L, R Expr
	}
	EUn struct {
		Op string
		X  Expr
	}
	ESel struct {
		X    Expr
		Name string
	}
	EIndex struct{ X, I Expr }
	ESlice struct{ X, Lo, Hi Expr }
	ECall  struct {
		Fn   Expr
		Args []Expr
	}
	EAssert struct {
		X  Expr
		Ty string
	}
	EQuant struct {
		Kind string
		Vars []struct{ Name, Ty string }
		Pats [][]Expr
		Body Expr
	}
	ELet struct {
		Name string
		V, B Expr
	}
	ETypeLit struct{ Ty string }
)

type tok struct {
	k string // id, int, str, op, eof
	s string
}

type parser struct {
	src  string
	pos  int
	toks []tok
	offs []int
	i    int
}

func parseExpr(s string) (e Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s (in %q)", se.msg, s)
				return
			}
			panic(r)
		}
	}()
	p := &parser{src: s}
	p.lex()
	e = p.expr()
	if p.peek().k != "eof" {
		panic(specErr{"unexpected " + p.peek().s})
	}
	return e, nil
}

var ops3 = []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "::", ":="}

func (p *parser) lex() {
	s := p.src
	i := 0
	add := func(k, v string, o int) { p.toks = append(p.toks, tok{k, v}); p.offs = append(p.offs, o) }
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				j++
			}
			add("str", s[i+1:j], i)
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			add("int", s[i:j], i)
			i = j
		case c == '_' || c == '$' || unicode.IsLetter(rune(c)):
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '$' || unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j]))) {
				j++
			}
			add("id", s[i:j], i)
			i = j
		default:
			done := false
			for _, o := range ops3 {
				if strings.HasPrefix(s[i:], o) {
					add("op", o, i)
					i += len(o)
					done = true
					break
				}
			}
			if !done {
				add("op", string(c), i)
				i++
			}
		}
	}
	add("eof", "<end>", len(s))
}

func (p *parser) peek() tok { return p.toks[p.i] }
func (p *parser) next() tok { p.i++; return p.toks[p.i-1] }
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(specErr{"expected " + s + " before " + p.peek().s})
	}
}

func (p *parser) expr() Expr {
	if p.is("forall") || p.is("exists") {
		q := &EQuant{Kind: p.next().s}
		for {
			n := p.next().s
			ty := p.typeText(",", "::", "{{")
			q.Vars = append(q.Vars, struct{ Name, Ty string }{n, ty})
			if !p.accept(",") {
				break
			}
		}
		for p.is("{") && p.toks[p.i+1].s == "{" {
			p.next()
			p.next()
			var pat []Expr
			for {
				pat = append(pat, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			p.expect("}")
			q.Pats = append(q.Pats, pat)
		}
		p.expect("::")
		q.Body = p.expr()
		// untyped names take the type of the next typed one
		for i := len(q.Vars) - 2; i >= 0; i-- {
			if q.Vars[i].Ty == "" {
				q.Vars[i].Ty = q.Vars[i+1].Ty
			}
		}
		return q
	}
	if p.is("let") {
		p.next()
		n := p.next().s
		p.expect(":=")
		v := p.expr()
		p.expect("::")
		return &ELet{n, v, p.expr()}
	}
	return p.iff()
}

// typeText reads the text of a type up to one of the stop tokens at depth 0.
func (p *parser) typeText(stop ...string) string {
	start := p.offs[p.i]
	d := 0
	for {
		t := p.peek()
		if t.k == "eof" {
			break
		}
		if d == 0 {
			st := false
			for _, s := range stop {
				if t.s == s || (s == "{{" && t.s == "{" && p.toks[p.i+1].s == "{") {
					st = true
				}
			}
			if st {
				break
			}
		}
		switch t.s {
		case "[", "(", "{":
			d++
		case "]", ")", "}":
			d--
		}
		if d < 0 {
			break
		}
		p.i++
	}
	return strings.TrimSpace(p.src[start:p.offs[p.i]])
}

func (p *parser) iff() Expr {
	l := p.imp()
	for p.accept("<==>") {
		l = &EBin{"<==>", l, p.imp()}
	}
	return l
}
func (p *parser) imp() Expr {
	l := p.or()
	if p.accept("==>") {
		var r Expr
		if p.is("forall") || p.is("exists") || p.is("let") {
			r = p.expr()
		} else {
			r = p.imp()
		}
		return &EBin{"==>", l, r}
	}
	return l
}
func (p *parser) or() Expr {
	l := p.and()
	for p.accept("||") {
		l = &EBin{"||", l, p.and()}
	}
	return l
}
func (p *parser) and() Expr {
	l := p.cmp()
	for p.accept("&&") {
		var r Expr
		if p.is("forall") || p.is("exists") || p.is("let") {
			r = p.expr()
		} else {
			r = p.cmp()
		}
		l = &EBin{"&&", l, r}
	}
	return l
}
func (p *parser) cmp() Expr {
	l := p.add()
	var res Expr
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") || t.k == "id" && t.s == "in" && !p.noIn() {
			p.next()
			r := p.add()
			c := Expr(&EBin{t.s, l, r})
			if res == nil {
				res = c
			} else {
				res = &EBin{"&&", res, c}
			}
			l = r
			continue
		}
		break
	}
	if res == nil {
		return l
	}
	return res
}
func (p *parser) noIn() bool { return false }
func (p *parser) add() Expr {
	l := p.mul()
	for p.is("+") || p.is("-") {
		o := p.next().s
		l = &EBin{o, l, p.mul()}
	}
	return l
}
func (p *parser) mul() Expr {
	l := p.unary()
	for p.is("*") || p.is("/") || p.is("%") {
		o := p.next().s
		l = &EBin{o, l, p.unary()}
	}
	return l
}
func (p *parser) unary() Expr {
	if p.is("!") || p.is("-") || p.is("*") || p.is("&") {
		o := p.next().s
		return &EUn{o, p.unary()}
	}
	return p.postfix()
}
func (p *parser) postfix() Expr {
	e := p.primary()
	for {
		switch {
		case p.is("."):
			p.next()
			if p.accept("(") {
				ty := p.typeText(")")
				p.expect(")")
				e = &EAssert{e, ty}
			} else {
				e = &ESel{e, p.next().s}
			}
		case p.is("["):
			p.next()
			var lo Expr
			if !p.is(":") {
				lo = p.expr()
			}
			if p.accept(":") {
				var hi Expr
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = &ESlice{e, lo, hi}
			} else {
				p.expect("]")
				e = &EIndex{e, lo}
			}
		case p.is("("):
			p.next()
			c := &ECall{Fn: e}
			id, _ := e.(*EIdent)
			for !p.is(")") {
				if id != nil && (id.Name == "typeis" || id.Name == "implements" || id.Name == "box" || id.Name == "zero" || id.Name == "cast" || id.Name == "implany") && len(c.Args) == typeArgPos(id.Name) {
					c.Args = append(c.Args, &ETypeLit{p.typeText(",", ")")})
				} else {
					c.Args = append(c.Args, p.expr())
				}
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
}
func typeArgPos(n string) int {
	if n == "zero" {
		return 0
	}
	return 1
}
func (p *parser) primary() Expr {
	t := p.next()
	switch t.k {
	case "id":
		if t.s == "forall" || t.s == "exists" || t.s == "let" {
			p.i--
			return p.expr()
		}
		return &EIdent{t.s}
	case "int":
		return &EInt{t.s}
	case "str":
		return &EStr{t.s}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
	}
	panic(specErr{"unexpected " + t.s})
}
