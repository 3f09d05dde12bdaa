package modelchecker

import (
	ast "fizz/proto"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/fizzbee-io/fizzbee/lib"
	"go.starlark.net/starlark"
)

// C11: what may happen next at a yield point.

type c11prog struct {
	f    *ast.File
	opts *ast.StateSpaceOptions
	text string
}

func c11run(p *c11prog, strategy string) (init *Node, err interface{}) {
	lib.ClearRoleRefs()
	lib.ClearChannelRefs()
	proc := NewProcessor([]*ast.File{p.f}, p.opts, false, 1, "", strategy, true, nil, nil, "")
	old := os.Stdout
	if dn, e := os.OpenFile(os.DevNull, os.O_WRONLY, 0); e == nil {
		os.Stdout = dn
		defer func() { os.Stdout = old; dn.Close() }()
	}
	defer func() {
		if e := recover(); e != nil {
			err = e
		}
	}()
	late := false
	wd := time.AfterFunc(4*time.Second, func() { late = true; proc.Stop() })
	defer wd.Stop()
	init, _, e := proc.Start()
	if e != nil {
		return init, e
	}
	if late {
		return init, "the exploration did not end within 4 s"
	}
	return init, nil
}

func c11nodes(init *Node) []*Node {
	seen := map[*Node]bool{}
	var l []*Node
	var walk func(n *Node)
	walk = func(n *Node) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		l = append(l, n)
		for _, o := range n.Outbound {
			walk(o.Node)
		}
	}
	walk(init)
	return l
}

func (p *c11prog) limit(name string, maxA, maxC int) {
	if p.opts.ActionOptions == nil {
		p.opts.ActionOptions = map[string]*ast.Options{}
	}
	p.opts.ActionOptions[name] = &ast.Options{MaxActions: int64(maxA), MaxConcurrentActions: int64(maxC)}
	p.text += fmt.Sprintf(" %s:%d/%d", name, maxA, maxC)
}

// c11gen: actions that are always enabled and keep the state finite; roles; a channel.
func c11gen(r *rand.Rand) *c11prog {
	p := &c11prog{f: &ast.File{SourceInfo: mksi()}, opts: &ast.StateSpaceOptions{Options: &ast.Options{MaxActions: 10000000, MaxConcurrentActions: int64(1 + r.Intn(3))}}}
	p.text = fmt.Sprintf("max_concurrent=%d", p.opts.Options.MaxConcurrentActions)
	flow := func() ast.Flow { return []ast.Flow{mkA, mkS, mkS, mkP, mkO}[r.Intn(5)] }
	flip := func(v string) *ast.Statement { return mkpy(v + " = 1 - " + v) }
	calls := r.Intn(3) == 0
	if calls {
		p.f.Functions = append(p.f.Functions, mkfn("F", []ast.Flow{mkS, mkA, mkS}[r.Intn(3)], flip("a"), flip("b")))
		p.text += " with calls"
	}
	body := func(vs ...string) (l []*ast.Statement) {
		for i := 1 + r.Intn(2); i > 0; i-- {
			l = append(l, flip(vs[r.Intn(len(vs))]))
		}
		if calls && vs[0] == "self.x" && r.Intn(2) == 0 {
			l[r.Intn(len(l))] = mkcall("", "F")
		}
		return
	}
	init := []*ast.Statement{mkpy("a = 0"), mkpy("b = 0")}
	nr := r.Intn(3)
	msg := false
	for j := 0; j < nr; j++ {
		name := fmt.Sprintf("R%d", j)
		if r.Intn(3) == 0 {
			name = []string{"R", "R1R"}[j] // names that are prefixes of each other
		}
		role := &ast.Role{Name: name, SourceInfo: mksi(), Actions: []*ast.Action{mkact("Init", mkA, mkpy("self.x = 0"))}}
		for k := r.Intn(2); k >= 0; k-- {
			role.Actions = append(role.Actions, mkact([]string{"A", "BA"}[k], flow(), body("self.x", "self.x")...))
		}
		if j == 1 && r.Intn(2) == 0 {
			msg = true
			send := mkif("pending == 0", mkpy("pending = 1"), mkcall("st", "H"))
			role.Actions = append(role.Actions, mkact("Send", []ast.Flow{mkA, mkS}[r.Intn(2)], flip("self.x"), send))
		}
		p.f.Roles = append(p.f.Roles, role)
		for k := r.Intn(2); k >= 0; k-- {
			init = append(init, mkpy(fmt.Sprintf("o%d%d = %s()", j, k, name)))
		}
	}
	if msg {
		init = append(init, mkpy("pending = 0"), mkpy("ch = Channel(ordering='unordered', delivery='exactly_once', blocking='fire_and_forget')"), mkpy("st = ch.stub(o00)"))
		p.f.Roles[0].Functions = append(p.f.Roles[0].Functions, mkfn("H", []ast.Flow{mkA, mkS}[r.Intn(2)], flip("self.x"), mkpy("pending = 0")))
	}
	p.f.Actions = []*ast.Action{mkact("Init", mkA, init...)}
	for i := r.Intn(3); i > 0; i-- {
		p.f.Actions = append(p.f.Actions, mkact([]string{"A", "B"}[i-1], flow(), body("a", "b")...))
	}
	for _, a := range p.f.Actions {
		p.text += fmt.Sprintf(" %s(%v,%d)", a.Name, a.Block.Flow, len(a.Block.Stmts))
		if a.Name != "Init" && r.Intn(4) == 0 {
			p.limit(a.Name, 0, 1+r.Intn(2))
		}
	}
	for _, ro := range p.f.Roles {
		for _, a := range ro.Actions {
			p.text += fmt.Sprintf(" %s.%s(%v,%d)", ro.Name, a.Name, a.Block.Flow, len(a.Block.Stmts))
			if a.Name != "Init" && r.Intn(2) == 0 {
				switch r.Intn(3) {
				case 0:
					p.limit(ro.Name+"#0."+a.Name, 0, 1+r.Intn(2))
				case 1:
					p.limit(ro.Name+"#."+a.Name, 0, 1+r.Intn(2))
				case 2:
					p.limit(ro.Name+"."+a.Name, 0, 1+r.Intn(3))
				}
			}
		}
	}
	if msg {
		p.text += " with messages"
	}
	return p
}

// c11expect: the names of the steps possible at a yield point, from the contents of the state alone.
func c11expect(p *c11prog, n *Node) map[string]bool {
	want := map[string]bool{}
	live := 0
	running := map[string]int{} // root of the thread: "A", "R#0.A"
	for i, th := range n.Process.Threads {
		if th == nil {
			continue
		}
		live++
		if th.currentPc() != "" {
			want[fmt.Sprintf("thread-%d", i)] = true
		}
		root := th.Stack.RawArray()[0]
		var x, y int
		if k, _ := fmt.Sscanf(root.pc, "Roles[%d].Actions[%d]", &x, &y); k == 2 {
			running[root.obj.RefStringShort()+"."+p.f.Roles[x].Actions[y].Name]++
		} else if k, _ := fmt.Sscanf(root.pc, "Actions[%d]", &x); k == 1 {
			running[p.f.Actions[x].Name]++
		}
	}
	for c, l := range n.Process.ChannelMessages {
		for j := range l {
			want[fmt.Sprintf("channel-%d-message-%d", c, j)] = true
		}
	}
	if live >= int(p.opts.Options.MaxConcurrentActions) {
		return want
	}
	full := func(name string, n int) bool {
		o := p.opts.ActionOptions[name]
		return o != nil && o.MaxConcurrentActions > 0 && n >= int(o.MaxConcurrentActions)
	}
	for _, a := range p.f.Actions {
		if a.Name != "Init" && !full(a.Name, running[a.Name]) {
			want[a.Name] = true
		}
	}
	for _, ro := range n.Process.Roles {
		for _, r := range p.f.Roles {
			if r.Name != ro.Name {
				continue
			}
			for _, a := range r.Actions {
				me := ro.RefStringShort() + "." + a.Name
				all := 0
				for k, c := range running {
					if i := strings.Index(k, "#"); i >= 0 && k[:i] == r.Name && k[strings.Index(k, "."):] == "."+a.Name {
						all += c
					}
				}
				if a.Name == "Init" || full(me, running[me]) || full(r.Name+"#."+a.Name, running[me]) || full(r.Name+"."+a.Name, all) {
					continue
				}
				want[me] = true
			}
		}
	}
	return want
}

func c11diff(want, got map[string]bool) string {
	var l []string
	for k := range want {
		if !got[k] {
			l = append(l, "not scheduled: "+k)
		}
	}
	for k := range got {
		if !want[k] {
			l = append(l, "scheduled but not permitted: "+k)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func TestVerif_C11Steps(t *testing.T) {
	r := vstart(t, "steps", "in programs whose actions are always enabled, the steps out of every yield point of the graph are one per running thread, one per message in flight, and one per action that the limits on concurrency (overall, per action, per role instance, per role) permit")
	defer r.end()
	n := 150
	if r.thorough {
		n = 4000
	}
	for i := 0; i < n && r.nfail < 12; i++ {
		seed := r.rng.Int63()
		p := c11gen(rand.New(rand.NewSource(seed)))
		r.check(fmt.Sprintf("prog%d", seed), p.text, func() string {
			init, err := c11run(p, []string{"bfs", "dfs"}[i%2])
			if err != nil {
				if s := fmt.Sprint(err); strings.HasPrefix(s, "the exploration") {
					return ""
				}
				return fmt.Sprintf("the checker failed: %v", err)
			}
			for _, n := range c11nodes(init) {
				if n.Name != "yield" {
					continue
				}
				got := map[string]bool{}
				for _, o := range n.Outbound {
					got[o.Name] = true
				}
				if d := c11diff(c11expect(p, n), got); d != "" {
					pcs := ""
					for _, th := range n.Process.Threads {
						if th != nil {
							pcs += th.currentPc() + " "
						}
					}
					return fmt.Sprintf("%s at state %s threads [%s]", d, realLabel(n.Process), pcs)
				}
			}
			return ""
		})
	}
}

// c11kind: "R#0.A" -> "R.A"
func c11kind(k string) string {
	if h := strings.Index(k, "#"); h >= 0 {
		return k[:h] + k[strings.Index(k, "."):]
	}
	return k
}

// counters: every action counts itself, so a state determines how often each action ran.
func TestVerif_C11Counts(t *testing.T) {
	r := vstart(t, "counts", "when every action counts how often it ran, the reachable combinations of counts are exactly those within max_actions and the limits per action, role instance and role")
	defer r.end()
	n := 250
	if r.thorough {
		n = 1200
	}
	for i := 0; i < n && r.nfail < 12; i++ {
		seed := r.rng.Int63()
		rng := rand.New(rand.NewSource(seed))
		total := 1 + rng.Intn(5)
		p := &c11prog{f: &ast.File{SourceInfo: mksi()}, opts: &ast.StateSpaceOptions{Options: &ast.Options{MaxActions: int64(total), MaxConcurrentActions: 1}}}
		p.text = fmt.Sprintf("max_actions=%d", total)
		var init []*ast.Statement
		var keys []string // counted things
		nA := rng.Intn(3)
		acts := []*ast.Action{nil}
		// an action may wait until another one ran (total of all its instances), so that the order in which limits are used up shows
		type guard struct {
			waiter, on string
			least      int
		}
		var guards []guard
		wait := func(me string, inc ...*ast.Statement) []*ast.Statement {
			all := append(inc, mkpy("n_"+strings.Replace(me, ".", "_", 1)+" += 1"))
			init = append(init, mkpy("n_"+strings.Replace(me, ".", "_", 1)+" = 0"))
			names := []string{"A", "BA", "R.A", "R.BA", "R1.A", "R1.BA"}
			if rng.Intn(2) == 0 {
				return all
			}
			g := guard{me, names[rng.Intn(len(names))], 1 + rng.Intn(2)}
			if i := strings.Index(me, "."); i >= 0 && rng.Intn(2) == 0 {
				g.on = map[string]string{"R": "R1", "R1": "R"}[me[:i]] + me[i:]
			}
			if g.on == me {
				return all
			}
			guards = append(guards, g)
			p.text += fmt.Sprintf(" %s waits until %s ran %d times,", me, g.on, g.least)
			return []*ast.Statement{mkif(fmt.Sprintf("n_%s >= %d", strings.Replace(g.on, ".", "_", 1), g.least), all...)}
		}
		for a := 0; a < nA; a++ {
			nm := []string{"A", "BA"}[a]
			init = append(init, mkpy(nm+"c = 0"))
			acts = append(acts, mkact(nm, mkA, wait(nm, mkpy(nm+"c = "+nm+"c + 1"))...))
			keys = append(keys, nm)
			if rng.Intn(2) == 0 {
				p.limit(nm, 1+rng.Intn(3), 0)
			}
		}
		for j, nj := 0, []int{0, 1, 2, 2, 2}[rng.Intn(5)]; j < nj; j++ {
			nm := []string{"R", "R1"}[j]
			ro := &ast.Role{Name: nm, SourceInfo: mksi(), Actions: []*ast.Action{mkact("Init", mkA, mkpy("self.Ac = 0"), mkpy("self.BAc = 0"))}}
			na := 1 + rng.Intn(2)
			ni := 1 + rng.Intn(2)
			for k := 0; k < na; k++ {
				an := []string{"A", "BA"}[k]
				ro.Actions = append(ro.Actions, mkact(an, mkA, wait(nm+"."+an, mkpy("self."+an+"c = self."+an+"c + 1"))...))
				for x := 0; x < ni; x++ {
					keys = append(keys, fmt.Sprintf("%s#%d.%s", nm, x, an))
				}
				if rng.Intn(3) == 0 {
					p.limit(fmt.Sprintf("%s#%d.%s", nm, rng.Intn(2), an), 1+rng.Intn(2), 0)
				}
				if rng.Intn(3) == 0 {
					p.limit(nm+"#."+an, 1+rng.Intn(2), 0)
				}
				if rng.Intn(3) == 0 {
					p.limit(nm+"."+an, 1+rng.Intn(3), 0)
				}
			}
			for x := 0; x < ni; x++ {
				init = append(init, mkpy(fmt.Sprintf("o%d%d = %s()", j, x, nm)))
			}
			p.f.Roles = append(p.f.Roles, ro)
		}
		if len(keys) == 0 {
			continue
		}
		have := map[string]bool{}
		for _, k := range keys {
			have[c11kind(k)] = true
		}
		for _, g := range guards {
			if !have[g.on] {
				have[g.on] = true
				init = append(init, mkpy("n_"+strings.Replace(g.on, ".", "_", 1)+" = 0"))
			}
		}
		acts[0] = mkact("Init", mkA, init...)
		if len(init) == 0 {
			continue
		}
		p.f.Actions = acts
		r.check(fmt.Sprintf("prog%d", seed), p.text+" counted: "+strings.Join(keys, " "), func() string {
			in, err := c11run(p, []string{"bfs", "dfs"}[i%2])
			if err != nil {
				return fmt.Sprintf("the checker failed: %v", err)
			}
			got := map[string]bool{}
			for _, n := range c11nodes(in) {
				if n.Name != "yield" {
					continue
				}
				var v []string
				for _, k := range keys {
					var c starlark.Value
					if i := strings.Index(k, "."); i < 0 {
						c = n.Process.Heap.state[k+"c"]
					} else {
						for _, ro := range n.Process.Roles {
							if ro.RefStringShort() == k[:i] {
								c, _ = ro.Fields.Attr(k[i+1:] + "c")
							}
						}
					}
					v = append(v, k+"="+c.String())
				}
				got[strings.Join(v, " ")] = true
			}
			want := map[string]bool{}
			over := func(name string, n int) bool {
				o := p.opts.ActionOptions[name]
				return o != nil && o.MaxActions > 0 && n > int(o.MaxActions)
			}
			c := make([]int, len(keys))
			var rec func(left int)
			rec = func(left int) {
				var v []string
				kinds := map[string]int{}
				for j, k := range keys {
					v = append(v, fmt.Sprintf("%s=%d", k, c[j]))
					kinds[c11kind(k)] += c[j]
				}
				s := strings.Join(v, " ")
				if want[s] || left < 0 {
					return
				}
				want[s] = true
			next:
				for j, k := range keys {
					kind := c11kind(k)
					for _, g := range guards {
						if g.waiter == kind && kinds[g.on] < g.least {
							continue next
						}
					}
					if over(k, c[j]+1) || kind != k && (over(strings.Replace(kind, ".", "#.", 1), c[j]+1) || over(kind, kinds[kind]+1)) {
						continue
					}
					if left > 0 {
						c[j]++
						rec(left - 1)
						c[j]--
					}
				}
			}
			rec(total)
			return c11diff(want, got)
		})
	}
}

// TestVerif_C11Merged: two schedules that reach the same values with different budgets left.
func TestVerif_C11Merged(t *testing.T) {
	r := vstart(t, "merged", "a schedule within the limits is explored even when another schedule reached the same values first and used up more of its limits")
	defer r.end()
	xs := func(init *Node) map[string]bool {
		m := map[string]bool{}
		for _, n := range c11nodes(init) {
			if n.Name == "yield" {
				m["x="+n.Process.Heap.state["x"].String()] = true
			}
		}
		return m
	}
	run := func(id, text string, f *ast.File, opts *ast.StateSpaceOptions, strategy string, want ...string) {
		p := &c11prog{f: f, opts: opts, text: text}
		r.check(id, text, func() string {
			in, err := c11run(p, strategy)
			if err != nil {
				return fmt.Sprintf("the checker failed: %v", err)
			}
			w := map[string]bool{}
			for _, s := range want {
				w[s] = true
			}
			return c11diff(w, xs(in))
		})
	}
	file := func(acts ...*ast.Action) *ast.File {
		return &ast.File{SourceInfo: mksi(), Actions: append([]*ast.Action{mkact("Init", mkA, mkpy("x = 0"))}, acts...)}
	}
	step := mkact("A", mkA, mkif("x < 2", mkpy("x = x + 1")))
	b := mkact("B", mkA, mkif("x == 0", mkpy("x = 1")))
	for _, s := range []string{"bfs", "dfs"} {
		o := func() *ast.StateSpaceOptions {
			return &ast.StateSpaceOptions{Options: &ast.Options{MaxActions: 10000000, MaxConcurrentActions: 1}, ActionOptions: map[string]*ast.Options{"A": {MaxActions: 1}}}
		}
		run("limit-A-first-"+s, "A: x=x+1 while x<2, at most once; B: x=1 when x==0; "+s, file(step, b), o(), s, "x=0", "x=1", "x=2")
		run("limit-B-first-"+s, "B: x=1 when x==0; A: x=x+1 while x<2, at most once; "+s, file(b, step), o(), s, "x=0", "x=1", "x=2")
		jump := mkact("J", mkA, mkif("x == 0", mkpy("x = 2")))
		inc := mkact("I", mkA, mkif("x < 5", mkpy("x = x + 1")))
		opt := func() *ast.StateSpaceOptions {
			return &ast.StateSpaceOptions{Options: &ast.Options{MaxActions: 4, MaxConcurrentActions: 1}}
		}
		run("depth-"+s, "max_actions=4; I: x=x+1 while x<5; J: x=2 when x==0; "+s, file(inc, jump), opt(), s, "x=0", "x=1", "x=2", "x=3", "x=4", "x=5")
		run("depth-J-first-"+s, "max_actions=4; J: x=2 when x==0; I: x=x+1 while x<5; "+s, file(jump, inc), opt(), s, "x=0", "x=1", "x=2", "x=3", "x=4", "x=5")
	}
}
