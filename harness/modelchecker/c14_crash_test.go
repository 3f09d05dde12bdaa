package modelchecker

import (
	ast "fizz/proto"

	"fmt"
	"github.com/fizzbee-io/fizzbee/lib"
	"math/rand"
	"strings"
	"testing"
)

// C14: crashes. The reference is the interpreter of common_ref_test.go with crash transitions added:
//
//   - a role instance may crash at every scheduling point (unless it waits for a call of its own to return): the threads
//     running in that instance stop, its ephemeral fields return to the values its Init gave them, and nothing else
//     changes;
//   - the thread that just yielded may crash, unless its action opted out: it stops, and nothing else changes.
//
// The real graph must show every history of that reference, and no history that is not one of the reference in which
// any thread may crash at any scheduling point. (Between the two the graph is free: states are merged.)

// compareCrash: "" when the real graph lies between the two references.
func compareCrash(p *prog, limit int, strategy string) (diff string, ok bool) {
	few, many := *p, *p
	few.crashes, many.crashes = fewCrashes, manyCrashes
	lo, ok := refOf(&few, limit)
	if !ok {
		return "", false
	}
	hi, ok := refOf(&many, 4*limit)
	if !ok {
		return "", false
	}
	rr := p.runReal(strategy, nil)
	if rr.err != nil {
		return fmt.Sprintf("the checker failed: %v", rr.err), true
	}
	real := realLTS(rr.init)
	if d := included(lo, real, 50000); d != "" {
		return d + " of the language is missing from the explored graph", true
	}
	if d := included(real, hi, 50000); d != "" {
		return d + " of the explored graph is not one of the language", true
	}
	return "", true
}

// included: every history of a is one of b ("" or the first that is not).
func included(a, b *lts, cap int) string {
	type pair struct {
		x, y []int
		hist string
	}
	seen := map[string]bool{}
	var queue []pair
	expand := func(sx, sy map[string]map[int]bool, hist string) string {
		for _, k := range keysOf(sx) {
			if sy[k] == nil {
				return fmt.Sprintf("after [%s] the transition %q (beside %v)", hist, k, keysOf(sy))
			}
			x, y := closureOf(a, sx[k]), closureOf(b, sy[k])
			if id := fmt.Sprint(x, y); !seen[id] {
				seen[id] = true
				queue = append(queue, pair{x, y, hist + "; " + k})
			}
		}
		return ""
	}
	first := func(l *lts) map[string]map[int]bool {
		out := map[string]map[int]bool{}
		for _, i := range l.init {
			k := "Init -> " + l.nodes[i].label
			if out[k] == nil {
				out[k] = map[int]bool{}
			}
			out[k][i] = true
		}
		return out
	}
	if d := expand(first(a), first(b), ""); d != "" {
		return d
	}
	for n := 0; len(queue) > 0 && n < cap; n++ {
		q := queue[0]
		queue = queue[1:]
		if d := expand(succOf(a, q.x), succOf(b, q.y), q.hist); d != "" {
			return d
		}
	}
	return ""
}

func crashCheck(r *vrun, id string, p *prog, limit int, st string) {
	r.check(id, p.text(), func() string {
		d, ok := compareCrash(p, limit, st)
		if !ok || d == "" {
			return ""
		}
		if r.nfail >= 2 {
			return d + "\nin the program\n" + p.text()
		}
		q := shrink(p, func(q *prog) bool {
			e, ok := compareCrash(q, limit, st)
			return ok && e != "" && strings.HasPrefix(e, "the checker") == strings.HasPrefix(d, "the checker")
		})
		d2, _ := compareCrash(q, limit, st)
		return fmt.Sprintf("%s\nin the program\n%s", d2, q.text())
	})
}

func TestVerif_C14Programs(t *testing.T) {
	r := vstart(t, "programs", "for random programs with roles, ephemeral and durable fields and crashes the observable histories of the explored graph are those of the language (independent interpreter with crash transitions)")
	defer r.end()
	n := 260
	if r.thorough {
		n = 5000
	}
	for i := 0; i < n && r.nfail < 12; i++ {
		seed := r.rng.Int63()
		p := genCrash(rand.New(rand.NewSource(seed)))
		crashCheck(r, fmt.Sprintf("prog%d", seed), p, 400, []string{"bfs", "bfs", "dfs"}[i%3])
	}
}

// crashGraph explores a program given as a syntax tree.
func crashGraph(roles []*ast.Role, init []*ast.Statement) (n *Node, err interface{}) {
	defer func() {
		if e := recover(); e != nil {
			err = e
		}
	}()
	lib.ClearRoleRefs()
	yes := true
	opts := &ast.StateSpaceOptions{Options: &ast.Options{MaxActions: 1000, MaxConcurrentActions: 1, CrashOnYield: &yes}}
	f := &ast.File{SourceInfo: mksi(), States: &ast.StateVars{}, Actions: []*ast.Action{mkact("Init", mkA, init...)}, Roles: roles}
	p := NewProcessor([]*ast.File{f}, opts, false, 1, "", "bfs", true, nil, nil, "")
	n, _, e := p.Start()
	if e != nil {
		return n, e
	}
	return n, nil
}

func stateDeco(txt string) []*ast.Decorator {
	return []*ast.Decorator{{Name: "state", SourceInfo: mksi(), Args: []*ast.Argument{{Expr: mkex(txt)}}}}
}

func TestVerif_C14Values(t *testing.T) {
	r := vstart(t, "values", "fields of every kind of value, changed in place: a crash gives an ephemeral field the value Init gave it, at every crash, leaves the durable field alone, and exactly the combinations of values that follow from this are reached")
	defer r.end()
	kinds := []struct{ name, init, change, size string }{
		{"list", "[]", "X.append(1)", "len(X)"},
		{"nested list", "[[]]", "X[0].append(1)", "len(X[0])"},
		{"list in tuple", "([],)", "X[0].append(1)", "len(X[0])"},
		{"dict", "{}", "X[len(X)] = 1", "len(X)"},
		{"list in dict", "{1: []}", "X[1].append(1)", "len(X[1])"},
		{"record", "record(l=0)", "X.l = X.l + 1", "X.l"},
		{"list in record", "record(l=[])", "X.l.append(1)", "len(X.l)"},
		{"list in struct", "struct(l=[])", "X.l.append(1)", "len(X.l)"},
		{"bag", "bag()", "X.add(1)", "len(X)"},
		{"genericset", "genericset()", "X.add(len(X))", "len(X)"},
		{"genericmap", "genericmap()", "X[len(X)] = 1", "len(X)"},
		{"number", "0", "X = X + 1", "X"},
		{"string", "''", "X = X + 'a'", "len(X)"},
		{"shared list", "[s, s]", "X[0].append(1)", "len(X[1])"},
	}
	on := func(txt, v string) string { return strings.ReplaceAll(txt, "X", "self."+v) }
	for _, k := range kinds {
		for _, deco := range []string{"ephemeral=['e']", "durable=['d']", "ephemeral=['e', 'f']"} {
			id := k.name + "/" + deco
			r.check(id, fmt.Sprintf("%v %s", k, deco), func() string {
				ini := []*ast.Statement{mkpy("s = []"), mkpy("self.e = " + k.init), mkpy("s = []"), mkpy("self.d = " + k.init), mkpy("self.f = 0")}
				m := mkact("M", mkA, mkreq(on(k.size, "d")+" < 2"), mkpy(on(k.change, "e")), mkpy(on(k.change, "d")))
				role := &ast.Role{Name: "R", SourceInfo: mksi(), Decorators: stateDeco(deco), Actions: []*ast.Action{mkact("Init", mkA, ini...), m}}
				root, err := crashGraph([]*ast.Role{role}, []*ast.Statement{mkpy("r = R()")})
				if err != nil {
					return fmt.Sprintf("the checker failed: %v", err)
				}
				field := func(n *Node, f string) string {
					if len(n.Process.Roles) != 1 {
						return "no role"
					}
					v, err := n.Process.Roles[0].Fields.Attr(f)
					if err != nil {
						return err.Error()
					}
					return v.String()
				}
				got := map[string]bool{}
				vals := []string{}
				for _, n := range allNodes(root) {
					if !isYieldPoint(n) {
						continue
					}
					e, d := field(n, "e"), field(n, "d")
					got[e+" "+d] = true
					for _, x := range []string{e, d} {
						if !contains(vals, x) {
							vals = append(vals, x)
						}
					}
					for _, l := range n.Outbound {
						if l.Name == "crash-role R#0" && (field(l.Node, "e") != vals[0] || field(l.Node, "d") != d) {
							return fmt.Sprintf("a crash leads from e=%s d=%s to e=%s d=%s (Init: %s)", e, d, field(l.Node, "e"), field(l.Node, "d"), vals[0])
						}
					}
				}
				if len(vals) != 3 {
					return fmt.Sprintf("values %v, 3 expected", vals)
				}
				for i, e := range vals {
					for j, d := range vals {
						if got[e+" "+d] != (i <= j) {
							return fmt.Sprintf("e=%s d=%s reached: %v, expected %v", e, d, got[e+" "+d], i <= j)
						}
					}
				}
				return ""
			})
		}
	}
}

func TestVerif_C14References(t *testing.T) {
	r := vstart(t, "references", "an ephemeral field that refers to a role instance refers to the same, unchanged instance after a crash")
	defer r.end()
	for _, ref := range []string{"P", "[P]", "{1: P}", "record(p=P)"} {
		for _, mine := range []bool{false, true} {
			id := fmt.Sprintf("%s/%v", ref, mine)
			r.check(id, id, func() string {
				get := map[string]string{"P": "self.e", "[P]": "self.e[0]", "{1: P}": "self.e[1]", "record(p=P)": "self.e.p"}[ref]
				other := &ast.Role{Name: "P", SourceInfo: mksi(), Actions: []*ast.Action{mkact("Init", mkA, mkpy("self.n = 0"))},
					Functions: []*ast.Function{mkfn("bump", mkA, mkpy("self.n = self.n + 1"))}}
				ini := []*ast.Statement{mkpy("q = P()"), mkpy("self.e = " + strings.ReplaceAll(ref, "P", "q"))}
				m := mkact("M", mkA, mkpy("q = "+get), mkreq("q.n < 2"), mkcall("q", "bump"))
				role := &ast.Role{Name: "R", SourceInfo: mksi(), Decorators: stateDeco("ephemeral=['e']"), Actions: []*ast.Action{mkact("Init", mkA, ini...), m}}
				start := []*ast.Statement{mkpy("r = R()")}
				if !mine {
					start = []*ast.Statement{mkpy("p = P()"), mkpy("r = R(first=record(r=p))")}
					ini[0] = mkpy("q = self.first.r")
				}
				root, err := crashGraph([]*ast.Role{role, other}, start)
				if err != nil {
					return fmt.Sprintf("the checker failed: %v", err)
				}
				seen := map[string]bool{}
				count := func(n *Node) string {
					out := ""
					for _, x := range n.Process.Roles {
						if x.Name == "P" {
							v, _ := x.Fields.Attr("n")
							out += v.String()
						}
					}
					return out
				}
				for _, n := range allNodes(root) {
					if !isYieldPoint(n) {
						continue
					}
					seen[count(n)] = true
					for _, l := range n.Outbound {
						if l.Name == "crash-role R#0" && count(l.Node) != count(n) {
							return fmt.Sprintf("a crash of R#0 changes P.n from %s to %s", count(n), count(l.Node))
						}
						if l.Name == "R#0.M" && count(l.Node) == count(n) && isYieldPoint(l.Node) {
							return fmt.Sprintf("calling P#0 through the field of R#0 leaves P.n=%s (from %s)", count(l.Node), count(n))
						}
					}
				}
				if fmt.Sprint(len(seen), seen["0"], seen["1"], seen["2"]) != "3 true true true" {
					return fmt.Sprintf("values of P.n reached: %v", seen)
				}
				return ""
			})
		}
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func TestVerif_C14Callers(t *testing.T) {
	r := vstart(t, "callers", "chains of calls between role instances: at every scheduling point exactly those instances crash that have a durability declaration and do not wait for a call to return")
	defer r.end()
	n := 60
	if r.thorough {
		n = 800
	}
	for i := 0; i < n && r.nfail < 12; i++ {
		rng := rand.New(rand.NewSource(r.rng.Int63()))
		names := []string{"A", "B", "C", "D"}[:2+rng.Intn(3)]
		kinds := []string{"ephemeral=['u']", "ephemeral=['u']", "durable=['v']", ""}
		var roles []*ast.Role
		var init []*ast.Statement
		id := ""
		for j, name := range names {
			ro := &ast.Role{Name: name, SourceInfo: mksi(), Actions: []*ast.Action{mkact("Init", mkA, mkpy("self.u = 0"), mkpy("self.v = 0"))}}
			kind := kinds[rng.Intn(len(kinds))]
			if kind != "" {
				ro.Decorators = stateDeco(kind)
			}
			id += " " + name + "[" + kind + "]"
			body := []*ast.Statement{mkpy("self.u = 1")}
			if rng.Intn(2) == 0 { // a function of the same instance in between
				own := []*ast.Statement{mkpy("self.v = 2")}
				if j+1 < len(names) {
					own = append(own, mkcall(strings.ToLower(names[j+1]), "f"))
				}
				ro.Functions = append(ro.Functions, mkfn("g", mkS, append(own, mkpy("self.v = 3"))...))
				body = append(body, mkcall("self", "g"))
				id += "own"
			} else if j+1 < len(names) {
				body = append(body, mkcall(strings.ToLower(names[j+1]), "f"))
			}
			body = append(body, mkpy("self.u = 2"))
			if j == 0 {
				ro.Actions = append(ro.Actions, mkact("Go", mkS, append([]*ast.Statement{mkreq("self.u == 0")}, body...)...))
			} else {
				ro.Functions = append(ro.Functions, mkfn("f", mkS, body...))
			}
			roles = append(roles, ro)
			init = append([]*ast.Statement{mkpy(strings.ToLower(name) + " = " + name + "()")}, init...)
		}
		id = fmt.Sprintf("%d:%s", i, id)
		r.check(id, id, func() string {
			root, err := crashGraph(roles, init)
			if err != nil {
				return fmt.Sprintf("the checker failed: %v", err)
			}
			deep := 0
			for _, n := range allNodes(root) {
				if !isYieldPoint(n) || !n.Enabled || (n.Name != "yield" && n.Name != "crash") {
					continue
				}
				waits := map[*lib.Role]bool{}
				for _, th := range n.GetThreads() {
					frames := th.Stack.RawArray()
					if len(frames) > deep {
						deep = len(frames)
					}
					for _, fr := range frames[:max(0, len(frames)-1)] {
						if fr.obj != nil && fr.obj != frames[len(frames)-1].obj {
							waits[fr.obj] = true
						}
					}
				}
				crashes := map[string]bool{}
				for _, l := range n.Outbound {
					if strings.HasPrefix(l.Name, "crash-") {
						crashes[l.Name] = true
					}
				}
				for i, ro := range n.Roles {
					declared := false
					for _, x := range roles {
						declared = declared || x.Name == ro.Name && x.Decorators != nil
					}
					want := declared && !waits[ro]
					if got := crashes["crash-"+ro.RefString()]; got != want {
						return fmt.Sprintf("in %s with %d threads: instance %d (%s) crashes: %v, expected %v", realLabel(n.Process), len(n.GetThreads()), i, ro.RefString(), got, want)
					}
				}
			}
			if deep < 2 {
				return "no thread waits for a call anywhere"
			}
			return ""
		})
	}
}
