package modelchecker

import (
	ast "fizz/proto"
	"fmt"
	"math/rand"
	"os"
	"strings"
)

// An exact decision of liveness under fairness on an explored state graph: strongly connected components, split at
// states in which a fair step is possible that the component never takes.

// fairKey names the fair step a link is part of ("" = none) and its level (2 weak, 3 strong).
type fairKey func(n *Node, l *Link) (string, int)

func isYieldName(n *Node) bool { return n.Name == "yield" || n.Name == "init" || n.Name == "crash" }

// fairChoice: the links out of n are alternatives of a fair any statement.
func fairChoice(n *Node) bool {
	return !isYieldName(n) && len(n.Outbound) > 0 && strings.HasPrefix(n.Outbound[0].Name, "Any:") && n.Outbound[0].ChoiceFairness >= ast.FairnessLevel_FAIRNESS_LEVEL_WEAK
}

// progKeys: fairness by name as the actions of f declare it; a thread in progress has to continue from each position.
func progKeys(f *ast.File) fairKey {
	lv := map[string]int{}
	for _, a := range f.Actions {
		lv[a.Name] = int(a.Fairness.GetLevel())
	}
	for _, ro := range f.Roles {
		for _, a := range ro.Actions {
			lv[ro.Name+"."+a.Name] = int(a.Fairness.GetLevel())
		}
	}
	return func(n *Node, l *Link) (string, int) {
		switch {
		case strings.HasPrefix(l.Name, "Any:"):
			if fairChoice(n) {
				return choiceKey(n, l), 3
			}
			return "", 0
		case !isYieldName(n):
			return "", 0
		case strings.HasPrefix(l.Name, "thread-"):
			var i int
			fmt.Sscanf(l.Name, "thread-%d", &i)
			return l.Name + "@" + threadPos(n, i), 3
		}
		name := l.Name
		if i := strings.Index(name, "#"); i >= 0 {
			j := strings.Index(name, ".")
			name = name[:i] + name[j:]
		}
		if v := lv[name]; v >= 2 {
			return l.Name, v
		}
		return "", 0
	}
}

func threadPos(n *Node, i int) string {
	if i >= len(n.Threads) || n.Threads[i] == nil {
		return "?"
	}
	s := n.Threads[i].currentPc()
	if o := n.Threads[i].currentFrame().obj; o != nil {
		s += "|" + o.RefStringShort()
	}
	return s
}

func choiceKey(n *Node, l *Link) string { return l.Name + "@" + threadPos(n, n.Current) }

// fairLoop: does some fair infinite path stay in nodes forever and visit must (nil: anything) infinitely often?
func fairLoop(nodes map[*Node]bool, must map[*Node]bool, key fairKey) bool {
	for _, s := range compsOf(nodes) {
		if fairComp(s, nodes, must, key) {
			return true
		}
	}
	return false
}

func compsOf(nodes map[*Node]bool) [][]*Node {
	idx, low, on := map[*Node]int{}, map[*Node]int{}, map[*Node]bool{}
	var st []*Node
	var out [][]*Node
	c := 0
	var sc func(n *Node)
	sc = func(n *Node) {
		c++
		idx[n], low[n] = c, c
		st = append(st, n)
		on[n] = true
		for _, l := range n.Outbound {
			if !nodes[l.Node] || l.IsCrashLink() {
				continue
			}
			if idx[l.Node] == 0 {
				sc(l.Node)
				low[n] = min(low[n], low[l.Node])
			} else if on[l.Node] {
				low[n] = min(low[n], idx[l.Node])
			}
		}
		if low[n] == idx[n] {
			var s []*Node
			for {
				w := st[len(st)-1]
				st = st[:len(st)-1]
				on[w] = false
				s = append(s, w)
				if w == n {
					break
				}
			}
			out = append(out, s)
		}
	}
	for n := range nodes {
		if idx[n] == 0 {
			sc(n)
		}
	}
	return out
}

func fairComp(s []*Node, nodes, must map[*Node]bool, key fairKey) bool {
	in := map[*Node]bool{}
	has := must == nil
	for _, n := range s {
		in[n] = true
		has = has || must[n]
	}
	if !has {
		return false
	}
	taken := map[string]bool{}
	strongAt := map[string][]*Node{}
	weakCnt := map[string]int{}
	edges, yields := 0, 0
	for _, n := range s {
		w, sg := map[string]bool{}, map[string]bool{}
		if isYieldName(n) {
			yields++
		}
		for _, l := range n.Outbound {
			nm, lv := key(n, l)
			if lv == 3 {
				sg[nm] = true
			} else if lv == 2 {
				w[nm] = true
			}
			if in[l.Node] && !l.IsCrashLink() {
				edges++
				taken[nm] = true
			}
		}
		for a := range sg {
			strongAt[a] = append(strongAt[a], n)
		}
		for a := range w {
			weakCnt[a]++
		}
	}
	if edges == 0 && (len(s) > 1 || !isYieldName(s[0])) {
		return false
	}
	bad := map[*Node]bool{}
	for a, ns := range strongAt {
		if !taken[a] {
			for _, n := range ns {
				bad[n] = true
			}
		}
	}
	for a, k := range weakCnt {
		if k == yields && !taken[a] {
			return false
		}
	}
	if len(bad) == 0 {
		return true
	}
	sub := map[*Node]bool{}
	for _, n := range s {
		if !bad[n] {
			sub[n] = true
		}
	}
	return len(sub) > 0 && fairLoop(sub, must, key)
}

// reachNodes lists the nodes reachable from root.
func reachNodes(root *Node) map[*Node]bool {
	all := map[*Node]bool{}
	st := []*Node{root}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		if all[n] {
			continue
		}
		all[n] = true
		for _, l := range n.Outbound {
			st = append(st, l.Node)
		}
	}
	return all
}

// liveFails decides whether "always eventually P" (or "eventually always P") fails; val tells P at the relevant nodes.
func liveFails(all map[*Node]bool, ea bool, val func(n *Node) (bool, bool), key fairKey) bool {
	if ea {
		must := map[*Node]bool{}
		for n := range all {
			if rel, v := val(n); rel && !v {
				must[n] = true
			}
		}
		return fairLoop(all, must, key)
	}
	keep := map[*Node]bool{}
	for n := range all {
		if rel, v := val(n); !rel || !v {
			keep[n] = true
		}
	}
	return fairLoop(keep, nil, key)
}

// ljob is a small specification over two variables with one liveness assertion.
type ljob struct {
	seed  int64
	f     *ast.File
	txt   string
	ea    bool
	pc    [3]int
	m     int
	maxC  int
	crash bool
	dead  bool // some state has no step out of it
}

// genLive generates a specification; mode 0: atomic actions, 1: also serial actions and choices, 2: also role actions.
func genLive(seed int64, mode int) *ljob {
	serial, roles := mode > 0, mode == 2
	r := rand.New(rand.NewSource(seed))
	f := &ast.File{SourceInfo: mksi(), States: &ast.StateVars{}}
	m := 2 + r.Intn(2)
	j := &ljob{seed: seed, f: f, m: m, maxC: 1}
	i0, i1 := r.Intn(m), r.Intn(m)
	f.Actions = append(f.Actions, mkact("Init", mkA, mkpy(fmt.Sprintf("a=%d", i0)), mkpy(fmt.Sprintf("b=%d", i1))))
	j.txt = fmt.Sprintf("Init: a=%d b=%d\n", i0, i1)
	na := 1 + r.Intn(4)
	if serial {
		j.maxC = 1 + r.Intn(2)
		na = 1 + r.Intn(3)
	}
	for i := 0; i < na; i++ {
		g := fmt.Sprintf("(a*%d+b*%d) %% %d != %d", 1+r.Intn(2), r.Intn(3), m, r.Intn(m))
		as := []string{fmt.Sprintf("a=(a*%d+b*%d+%d)%%%d", r.Intn(3), r.Intn(2), r.Intn(m), m), fmt.Sprintf("b=(a*%d+b*%d+%d)%%%d", r.Intn(2), r.Intn(3), r.Intn(m), m)}
		k := r.Intn(3)
		st := []*ast.Statement{}
		if r.Intn(3) > 0 {
			st = append(st, mkreq(g))
		} else {
			g = ""
		}
		choice := ""
		if serial && r.Intn(3) == 0 {
			an := mkany(0, "v", "[0,1]")
			an.AnyStmt.Fairness = &ast.Fairness{Level: ast.FairnessLevel([]int{0, 1, 2, 3}[r.Intn(4)])}
			choice = fmt.Sprintf("v = any fair%d [0,1]; ", an.AnyStmt.Fairness.Level)
			an.AnyStmt.Block = mkb(0)
			body := mkpy(strings.Replace(as[0], "(", "(v+", 1))
			as[0] = body.PyStmt.Code
			an.AnyStmt.Block = mkb(0, body)
			if r.Intn(2) == 0 { // steps from different states meet at the choice
				reset := fmt.Sprintf("%s=%d", []string{"a", "b"}[r.Intn(2)], r.Intn(m))
				st = append(st, mkpy(reset))
				choice = reset + "; " + choice
			}
			st = append(st, an)
			if k != 0 {
				st = append(st, mkpy(as[1]))
			} else {
				as[1] = ""
			}
		} else {
			if k != 1 {
				st = append(st, mkpy(as[0]))
			} else {
				as[0] = ""
			}
			if k != 0 {
				st = append(st, mkpy(as[1]))
			} else {
				as[1] = ""
			}
		}
		name := fmt.Sprintf("A%d", i)
		fl := ast.Flow(mkA)
		if serial && r.Intn(2) == 0 {
			fl = mkS
		}
		a := mkact(name, fl, st...)
		lv := ast.FairnessLevel([]int{0, 1, 2, 3}[r.Intn(4)])
		a.Fairness = &ast.Fairness{Level: lv}
		j.txt += fmt.Sprintf("%v fair%d %s: require %s; %s%s; %s\n", fl, lv, name, g, choice, as[0], as[1])
		if roles && r.Intn(2) == 0 {
			if len(f.Roles) == 0 {
				f.Roles = []*ast.Role{{Name: "R", SourceInfo: mksi()}}
				k := 1 + r.Intn(2)
				for x := 0; x < k; x++ {
					init := f.Actions[0]
					init.Block.Stmts = append(init.Block.Stmts, mkpy(fmt.Sprintf("r%d=R()", x)))
				}
				j.txt += fmt.Sprintf("%d instances of role R with the next action\n", k)
			} else {
				j.txt += "role R: "
			}
			f.Roles[0].Actions = append(f.Roles[0].Actions, a)
			j.txt += "(" + name + " belongs to R)\n"
		} else {
			f.Actions = append(f.Actions, a)
		}
	}
	j.pc = [3]int{r.Intn(3), r.Intn(3), r.Intn(m)}
	j.ea = r.Intn(2) == 0
	ops := []string{"always", "eventually"}
	if j.ea {
		ops = []string{"eventually", "always"}
	}
	cond := fmt.Sprintf("(a*%d+b*%d)%%%d == %d", j.pc[0], j.pc[1], m, j.pc[2])
	f.Invariants = []*ast.Invariant{{Name: "L", TemporalOperators: ops, SourceInfo: mksi(), Block: mkb(mkA, mkret(cond))}}
	j.txt += fmt.Sprintf("%v assertion L: return %s (max_concurrent_actions %d)\n", ops, cond, j.maxC)
	return j
}

// val reads the assertion from the state.
func (j *ljob) val(n *Node) (bool, bool) {
	if n.Name != "yield" && n.GetThreadsCount() != 0 {
		return false, false
	}
	var a, b int
	fmt.Sscan(n.Heap.state["a"].String(), &a)
	fmt.Sscan(n.Heap.state["b"].String(), &b)
	return true, (a*j.pc[0]+b*j.pc[1])%j.m == j.pc[2]
}

// run explores the specification; nil if it deadlocks or fails otherwise.
func (j *ljob) run() (*Node, []*Node) {
	restore := quiet()
	defer restore()
	o := &ast.StateSpaceOptions{Options: &ast.Options{MaxActions: 1000, MaxConcurrentActions: int64(j.maxC), CrashOnYield: &j.crash}}
	p := NewProcessor([]*ast.File{j.f}, o, false, 1, "", "bfs", true, nil, nil, "")
	root, failed, err := p.Start()
	if failed != nil || err != nil {
		return nil, nil
	}
	nodes, _, dead, _ := GetAllNodes(root, 1000)
	j.dead = dead != nil
	return root, nodes
}

func quiet() func() {
	old := os.Stdout
	dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return func() {}
	}
	os.Stdout = dn
	return func() { os.Stdout = old; dn.Close() }
}
