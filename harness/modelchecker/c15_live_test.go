package modelchecker

import (
	ast "fizz/proto"
	"fmt"
	"strings"
	"testing"
)

// C15: the liveness verdict respects fairness.

var _ = usesCLI

// lstutter: a state violating P in which the program may stop: nothing fair is possible there.
func lstutter(all map[*Node]bool, val func(n *Node) (bool, bool), key fairKey) bool {
	for n := range all {
		rel, v := val(n)
		if !isYieldName(n) || !rel || v {
			continue
		}
		ok := true
		for _, l := range n.Outbound {
			if _, lv := key(n, l); lv >= 2 {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// lsimple: every loop of the graph is a cycle of its own.
func lsimple(all map[*Node]bool, key fairKey) bool {
	for _, s := range compsOf(all) {
		in := map[*Node]bool{}
		for _, n := range s {
			in[n] = true
		}
		e := 0
		for _, n := range s {
			for _, l := range n.Outbound {
				if _, lv := key(n, l); in[l.Node] && (l.Node != n || lv >= 2) && !l.IsCrashLink() {
					e++
				}
			}
		}
		if e > len(s) {
			return false
		}
	}
	return true
}

// lpath: the reported path is an execution that ends in a fair loop (or stops where nothing fair is possible) which
// violates the assertion.
func lpath(path []*Link, root *Node, ea bool, val func(n *Node) (bool, bool), key fairKey) string {
	if len(path) == 0 || path[0].Node != root {
		return "the path does not start in the initial state"
	}
	last := len(path) - 1
	step := func(a *Node, l *Link) bool {
		for _, o := range a.Outbound {
			if o.Node == l.Node && o.Name == l.Name {
				return true
			}
		}
		return false
	}
	for i := 1; i <= last; i++ {
		if i == last && path[i].Name == "stutter" && path[i].Node == path[i-1].Node {
			continue
		}
		if !step(path[i-1].Node, path[i]) {
			return fmt.Sprintf("step %d (%s) of the path is not a step of the graph", i, path[i].Name)
		}
	}
	bad := func(n *Node) bool { rel, v := val(n); return rel && !v }
	if path[last].Name == "stutter" {
		n := path[last].Node
		for _, l := range n.Outbound {
			if nm, lv := key(n, l); lv >= 2 {
				return "the path stops although " + nm + " is possible and fair"
			}
		}
		if !bad(n) {
			return "the path stops in a state that satisfies the assertion"
		}
		return ""
	}
	for k := 0; k < last; k++ {
		if path[k].Node != path[last].Node {
			continue
		}
		some, sat := false, false
		taken, strong, weak, yields := map[string]bool{}, map[string]bool{}, map[string]int{}, 0
		for i := k + 1; i <= last; i++ {
			rel, v := val(path[i].Node)
			some = some || rel && !v
			sat = sat || rel && v
			from := path[i-1].Node
			if path[i].IsCrashLink() {
				return "crashes repeat in the loop"
			}
			nm, _ := key(from, path[i])
			taken[nm] = true
			if isYieldName(from) {
				yields++
			}
			w := map[string]bool{}
			for _, l := range from.Outbound {
				switch nm, lv := key(from, l); lv {
				case 3:
					strong[nm] = true
				case 2:
					w[nm] = true
				}
			}
			for nm := range w {
				weak[nm]++
			}
		}
		if ea && !some || !ea && sat {
			continue
		}
		ok := true
		for nm := range strong {
			ok = ok && taken[nm]
		}
		for nm, c := range weak {
			ok = ok && (c < yields || taken[nm])
		}
		if ok {
			return ""
		}
	}
	return "no fair loop that violates the assertion closes at the end of the path"
}

func pathText(path []*Link) string {
	t := ""
	for _, l := range path {
		t += " > " + l.Name + " " + l.Node.Name + " " + l.Node.Heap.String()
	}
	return t
}

// lcheck runs the strict checker; both: also compare programs where it may miss a failure.
func lcheck(j *ljob, both bool) (string, bool) {
	root, nodes := j.run()
	if root == nil {
		return "", false
	}
	q := quiet()
	path, pos := CheckStrictLiveness(root, nodes)
	q()
	all := reachNodes(root)
	key := progKeys(j.f)
	fail := liveFails(all, j.ea, j.val, key)
	switch {
	case !fail && pos != nil:
		return "reported as failing, but every fair execution satisfies it; path:" + pathText(path), true
	case pos != nil:
		if pos.FileIndex != 0 || pos.InvariantIndex != 0 {
			return fmt.Sprintf("wrong assertion %v", *pos), true
		}
		if m := lpath(path, root, j.ea, j.val, key); m != "" {
			return m + "; path:" + pathText(path), true
		}
	case fail && lstutter(all, j.val, key):
		return "not reported, but the program may stop in a state that violates it", true
	case fail && lsimple(all, key):
		return "not reported, but a fair loop violates it (no loop shares a state with another)", true
	case fail && both:
		return "not reported, but a fair execution violates it", true
	}
	return "", true
}

var lmodes = []string{"atomic", "serial", "roles"}

func TestVerif_C15Strict(t *testing.T) {
	r := vstart(t, "strict", "for random programs with fair actions, fair choices, threads and role actions: no assertion that all fair executions satisfy is reported as failing, the reported path is an execution ending in a fair loop or stop that violates it, and failures by stopping and in graphs of separate loops are all reported")
	defer r.end()
	n := 4000
	if r.thorough {
		n = 60000
	}
	for i := 0; i < n && r.nfail < 12; i++ {
		m := i % 3
		seed := r.rng.Int63()
		j := genLive(seed, m)
		j.crash = m > 0 && r.rng.Intn(3) == 0
		r.check(fmt.Sprintf("%s/%d", lmodes[m], seed), fmt.Sprint(j.txt, "crash_on_yield: ", j.crash), func() string { s, _ := lcheck(j, false); return s })
	}
}

// A fixed collection, independent of the seed, decided both ways; the failures missed on the unchanged tree are listed
// as known findings.
func TestVerif_C15Corpus(t *testing.T) {
	r := vstart(t, "corpus", "for a fixed collection of programs the liveness verdict is exactly that of the fair executions (strongly connected components)")
	defer r.end()
	n := int64(700)
	for m := range lmodes {
		for seed := int64(1); seed <= n; seed++ {
			j := genLive(seed, m)
			r.check(fmt.Sprintf("%s/%d", lmodes[m], seed), fmt.Sprint(j.txt, "crash_on_yield: ", j.crash), func() string { s, _ := lcheck(j, true); return s })
		}
	}
}

// Fairness of the links: what the action of the step declares.
func TestVerif_C15LinkFairness(t *testing.T) {
	r := vstart(t, "linkfairness", "a step that starts an action has exactly the fairness the action declares, a step that continues a thread the fairness of the action that started it, and no crash is fair")
	defer r.end()
	n := 600
	if r.thorough {
		n = 20000
	}
	for i := 0; i < n && r.nfail < 12; i++ {
		seed := r.rng.Int63()
		j := genLive(seed, 1+i%2)
		r.check(fmt.Sprint(seed), j.txt, func() string {
			root, _ := j.run()
			if root == nil {
				return ""
			}
			lv := map[string]ast.FairnessLevel{}
			for _, a := range j.f.Actions {
				lv[a.Name] = a.Fairness.GetLevel()
			}
			for _, ro := range j.f.Roles {
				for _, a := range ro.Actions {
					lv[a.Name] = a.Fairness.GetLevel()
				}
			}
			for n := range reachNodes(root) {
				if !isYieldName(n) {
					continue
				}
				for _, l := range n.Outbound {
					name := l.Name[strings.LastIndex(l.Name, ".")+1:]
					want, known := lv[name]
					if strings.HasPrefix(l.Name, "thread-") {
						var k int
						fmt.Sscanf(l.Name, "thread-%d", &k)
						if k >= len(n.Threads) {
							return "a step of thread " + l.Name + " that does not exist"
						}
						want, known = lv[n.Threads[k].Stack.RawArray()[0].Name], true
						if i := strings.LastIndex(n.Threads[k].Stack.RawArray()[0].Name, "."); i >= 0 {
							want = lv[n.Threads[k].Stack.RawArray()[0].Name[i+1:]]
						}
					}
					if l.IsCrashLink() {
						want, known = 0, true
					}
					if known && l.Fairness != want {
						return fmt.Sprintf("step %s in %s has fairness %v, declared %v", l.Name, n.Heap.String(), l.Fairness, want)
					}
				}
			}
			return ""
		})
	}
}

// The nondeterministic checker: possible by fair steps from everywhere.
func TestVerif_C15Fast(t *testing.T) {
	r := vstart(t, "fast", "the nondeterministic liveness check accepts 'always eventually P' exactly if a state satisfying P can be reached by weakly or strongly fair steps from every state, and 'eventually always P' exactly if from every state fair steps reach a state after which P cannot be violated; the reported path is an execution")
	defer r.end()
	n := 3000
	if r.thorough {
		n = 40000
	}
	for i := 0; i < n && r.nfail < 12; i++ {
		m := i % 3
		seed := r.rng.Int63()
		j := genLive(seed, m)
		j.crash = m > 0 && r.rng.Intn(3) == 0
		r.check(fmt.Sprintf("%s/%d", lmodes[m], seed), fmt.Sprint(j.txt, "crash_on_yield: ", j.crash), func() string {
			root, nodes := j.run()
			if root == nil || j.dead {
				return ""
			}
			all := reachNodes(root)
			val := func(n *Node) (bool, bool) {
				if n.GetThreadsCount() != 0 {
					return false, false
				}
				return j.val(n)
			}
			target := map[*Node]bool{}
			for n := range all {
				rel, v := val(n)
				target[n] = rel && v
				if j.ea && rel {
					for x := range reachNodes(n) {
						if rel, v := val(x); rel && !v {
							target[n] = false
						}
					}
				}
			}
			good := map[*Node]bool{}
			for n := range target {
				good[n] = target[n]
			}
			for again := true; again; {
				again = false
				for n := range all {
					for _, l := range n.Outbound {
						if !good[n] && good[l.Node] && l.Fairness >= ast.FairnessLevel_FAIRNESS_LEVEL_WEAK {
							good[n], again = true, true
						}
					}
				}
			}
			fail := false
			for n := range all {
				fail = fail || !good[n]
			}
			q := quiet()
			path, pos := CheckFastLiveness(nodes)
			q()
			if fail != (pos != nil) {
				return fmt.Sprintf("reported failing: %v, expected: %v", pos != nil, fail)
			}
			if pos == nil {
				return ""
			}
			for i := range path {
				l := path[i]
				if i == 0 {
					if l.Node != root {
						return "the path does not start in the initial state:" + pathText(path)
					}
					continue
				}
				ok := l.Name == "stutter" && l.Node == path[i-1].Node
				for _, o := range path[i-1].Node.Outbound {
					ok = ok || o.Node == l.Node && o.Name == l.Name
				}
				if !ok {
					return fmt.Sprintf("step %d (%s) of the path is not a step of the graph:%s", i, l.Name, pathText(path))
				}
			}
			return ""
		})
	}
}

// The command line tool.
func TestVerif_C15Cli(t *testing.T) {
	r := vstart(t, "cli", "the command line tool reports a failed liveness check, naming the assertion, exactly when the checker of the selected mode does")
	defer r.end()
	n := 160
	if r.thorough {
		n = 3000
	}
	type job struct {
		j    *ljob
		mode string
		o    *cliOut
		want string
	}
	for r.n < n && r.nfail < 12 {
		var jobs []*job
		for len(jobs) < 64 {
			j := genLive(r.rng.Int63(), r.rng.Intn(3))
			k := &job{j: j, mode: []string{"", "strict", "strict/bfs", "enabled", "true", "eventual", "nondeterministic", "false"}[r.rng.Intn(8)]}
			j.crash = r.rng.Intn(3) == 0
			root, nodes := j.run()
			if root == nil || j.dead {
				continue
			}
			q := quiet()
			var pos *InvariantPosition
			switch k.mode {
			case "eventual", "nondeterministic":
				_, pos = CheckFastLiveness(nodes)
			case "false":
			default:
				_, pos = CheckStrictLiveness(root, nodes)
			}
			q()
			k.want = "PASSED: Model checker completed successfully"
			if pos != nil {
				k.want = "FAILED: Liveness check failed | Invariant: L"
			}
			jobs = append(jobs, k)
		}
		cliPar(len(jobs), func(i int) {
			k := jobs[i]
			y := fmt.Sprintf("options:\n  max_actions: 1000\n  max_concurrent_actions: %d\n  crash_on_yield: %v\ndeadlock_detection: true\n", k.j.maxC, k.j.crash)
			if k.mode != "" {
				y += "liveness: \"" + k.mode + "\"\n"
			}
			k.o = cliRun(k.j.f, y, false)
		})
		for _, k := range jobs {
			r.check(fmt.Sprintf("%d/%s", k.j.seed, k.mode), k.j.txt+"liveness: "+k.mode, func() string {
				v := k.o.verdict()
				v = strings.TrimPrefix(v, "IsLive: true | ")
				v = strings.TrimPrefix(v, "IsLive: false | ")
				if v != k.want {
					return fmt.Sprintf("verdict %q, expected %q", k.o.verdict(), k.want)
				}
				return ""
			})
		}
	}
}

// Loops that close at a choice: what the actions owe does not depend on where the loop is entered.
func TestVerif_C15Choice(t *testing.T) {
	r := vstart(t, "choice", "the verdict on loops of actions with a choice, for all fairness levels of the choice and the actions, is exactly that of the fair executions")
	defer r.end()
	for k := 0; k < 4*4*4*2*2; k++ {
		cl, bl, wl, ea, reset := k%4, k/4%4, k/16%4, k/64%2 == 1, k/128 == 1
		an := mkany(0, "v", "[1,2]")
		an.AnyStmt.Fairness = &ast.Fairness{Level: ast.FairnessLevel(cl)}
		an.AnyStmt.Block = mkb(0, mkpy("a=v"))
		b := mkact("B", mkA, an)
		if reset {
			b = mkact("B", mkA, mkpy("a=0"), an)
		}
		b.Fairness = &ast.Fairness{Level: ast.FairnessLevel(bl)}
		w := mkact("W", mkA, mkpy("b=1"))
		w.Fairness = &ast.Fairness{Level: ast.FairnessLevel(wl)}
		f := &ast.File{SourceInfo: mksi(), States: &ast.StateVars{}}
		f.Actions = []*ast.Action{mkact("Init", mkA, mkpy("a=0"), mkpy("b=0")), b, w}
		ops := []string{"always", "eventually"}
		if ea {
			ops = []string{"eventually", "always"}
		}
		f.Invariants = []*ast.Invariant{{Name: "L", TemporalOperators: ops, SourceInfo: mksi(), Block: mkb(mkA, mkret("b == 1"))}}
		j := &ljob{f: f, maxC: 1, m: 2, pc: [3]int{0, 1, 1}, ea: ea}
		id := fmt.Sprintf("choice%d-action%d-other%d-ea%v-reset%v", cl, bl, wl, ea, reset)
		r.check(id, "action B (fairness 2nd): [reset] a = any (fairness 1st) [1,2]; action W (3rd): b=1", func() string { s, _ := lcheck(j, true); return s })
	}
}
