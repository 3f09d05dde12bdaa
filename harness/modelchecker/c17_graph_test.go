package modelchecker

import (
	"encoding/json"
	"fmt"
	"go.starlark.net/starlark"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing"

	ast "fizz/proto"
	pb "fizz/proto"
)

// C17: the state graph that is analysed and exported is the one that was explored.

var _ = usesCLI

// rgraph is a random graph of nodes with the features the traversal looks at.
type rgraph struct {
	nodes []*Node
	text  string
}

func genGraph(r *rand.Rand) *rgraph {
	g := &rgraph{}
	n := 1 + r.Intn(9)
	busy := r.Intn(3) // how often nodes are in the middle of a step
	var b strings.Builder
	for i := 0; i < n; i++ {
		p := NewProcess("", nil, nil)
		p.Heap.state["n"] = starlark.MakeInt(i)
		p.Stats = NewStats()
		p.Stats.TotalActions = r.Intn(4)
		p.Threads = nil
		switch {
		case i == 0 && r.Intn(2) == 0:
			p.Name = "init"
		case r.Intn(3) < busy:
			p.Name = []string{"", "Any:x=1", "Stmt:0"}[r.Intn(3)]
		case r.Intn(6) == 0:
			p.Name = "crash"
		default:
			p.Name = "yield"
		}
		p.Enabled = r.Intn(4) != 0 || i == 0
		if r.Intn(3) != 0 {
			p.NewThread()
		}
		nd := &Node{Process: p, forkDepth: i}
		g.nodes = append(g.nodes, nd)
	}
	for i, nd := range g.nodes {
		for k := r.Intn(4); k > 0; k-- {
			l := &Link{Node: g.nodes[r.Intn(n)], Name: []string{"A", "thread-0", "crash", "crash-role R#0", "crashed", "Any:v=2", "R#0.Act"}[r.Intn(7)]}
			if l.Name[0] == 'A' || l.Name[0] == 'R' {
				l.Type = "action"
			}
			nd.Outbound = append(nd.Outbound, l)
			l.Node.Inbound = append(l.Node.Inbound, &Link{Node: nd, Name: l.Name})
		}
		fmt.Fprintf(&b, "%d %q enabled=%v threads=%d actions=%d ->", i, nd.Name, nd.Enabled, nd.GetThreadsCount(), nd.Stats.TotalActions)
		for _, l := range nd.Outbound {
			for j, o := range g.nodes {
				if o == l.Node {
					fmt.Fprintf(&b, " %s:%d", l.Name, j)
				}
			}
		}
		b.WriteString("\n")
	}
	g.text = b.String()
	return g
}

type wantGraph struct {
	nodes    []*Node
	links    map[*Node][]*Link
	deadlock *Node
	yields   int
}

// wantOf says what the traversal has to return, from the definitions: by repetition until nothing changes.
func wantOf(root *Node, all []*Node, maxActions int) *wantGraph {
	w := &wantGraph{links: map[*Node][]*Link{}}
	crash := func(l *Link) bool { return l.Name == "crash" || strings.HasPrefix(l.Name, "crash-role") }
	end := func(n *Node) bool { return n.Name == "yield" || n.Name == "init" || n.Name == "crash" }
	fix := func(f func() bool) {
		for f() {
		}
	}
	there := map[*Node]bool{root: true}
	fix(func() bool {
		ch := false
		for _, n := range all {
			for _, l := range n.Outbound {
				if there[n] && !there[l.Node] {
					there[l.Node] = true
					ch = true
				}
			}
		}
		return ch
	})
	enabled := map[*Node]bool{}
	for _, n := range all {
		enabled[n] = n.Enabled
	}
	fix(func() bool { // in the middle of a step, what goes on is enabled
		ch := false
		for _, n := range all {
			for _, l := range n.Outbound {
				if there[n] && enabled[l.Node] && !crash(l) && !enabled[n] && n.GetThreadsCount() != 0 {
					enabled[n] = true
					ch = true
				}
			}
		}
		return ch
	})
	// breadth first through enabled nodes
	var order []*Node
	seen := map[*Node]bool{}
	level := []*Node{root}
	for len(level) > 0 {
		n := level[0]
		level = level[1:]
		if seen[n] {
			continue
		}
		seen[n] = true
		if !enabled[n] {
			continue
		}
		order = append(order, n)
		if n.Name == "yield" {
			w.yields++
		}
		for _, l := range n.Outbound {
			if enabled[l.Node] {
				level = append(level, l.Node)
			}
		}
	}
	in := map[*Node]bool{}
	for _, n := range order {
		in[n] = true
	}
	// the nodes reached from n within its step
	within := func(n *Node) []*Node {
		out := []*Node{n}
		got := map[*Node]bool{}
		for i := 0; i < len(out); i++ {
			for _, l := range out[i].Outbound {
				if in[l.Node] && !end(l.Node) && !got[l.Node] {
					got[l.Node] = true
					out = append(out, l.Node)
				}
			}
		}
		return out
	}
	for _, n := range order {
		if n != root && !end(n) {
			continue
		}
		stuck, goes := false, false
		for _, m := range within(n) {
			some := false
			for _, l := range m.Outbound {
				if enabled[l.Node] && !crash(l) {
					some = true
					if end(l.Node) {
						goes = true
					}
				}
			}
			if !some {
				stuck = true
			}
		}
		if stuck && !goes && n.Stats.TotalActions < maxActions {
			w.deadlock = n
			break
		}
	}
	// what leads to the end of a step
	alive := map[*Node]bool{}
	for _, n := range order {
		alive[n] = end(n)
	}
	fix(func() bool {
		ch := false
		for _, n := range order {
			for _, l := range n.Outbound {
				if in[l.Node] && alive[l.Node] && !alive[n] {
					alive[n] = true
					ch = true
				}
			}
		}
		return ch
	})
	for _, n := range order {
		if !alive[n] {
			continue
		}
		w.nodes = append(w.nodes, n)
		for _, l := range n.Outbound {
			if in[l.Node] && alive[l.Node] {
				w.links[n] = append(w.links[n], l)
			}
		}
	}
	return w
}

func TestVerif_C17Traverse(t *testing.T) {
	r := vstart(t, "traverse", "on random graphs the nodes and links kept, their order, the number of yield points and the deadlock that is reported are those of their definitions")
	defer r.end()
	n := 6000
	if r.thorough {
		n = 150000
	}
	for i := 0; i < n && r.nfail < 12; i++ {
		seed := r.rng.Int63()
		g := genGraph(rand.New(rand.NewSource(seed)))
		r.check(fmt.Sprintf("graph%d", seed), g.text, func() string {
			max := i % 4
			ids := map[*Node]string{nil: "none"}
			for j, nd := range g.nodes {
				ids[nd] = fmt.Sprint(j)
			}
			w := wantOf(g.nodes[0], g.nodes, max)
			show := func(nodes []*Node, links func(*Node) []*Link, dead *Node, y int) string {
				s := fmt.Sprintf("deadlock %s, %d yield points,", ids[dead], y)
				for _, nd := range nodes {
					s += fmt.Sprintf(" %s:[", ids[nd])
					for _, l := range links(nd) {
						s += " " + l.Name + ">" + ids[l.Node]
					}
					s += "]"
				}
				return s
			}
			want := show(w.nodes, func(n *Node) []*Link { return w.links[n] }, w.deadlock, w.yields)
			nodes, _, dead, y := GetAllNodes(g.nodes[0], int64(max))
			if got := show(nodes, func(n *Node) []*Link { return n.Outbound }, dead, y); got != want {
				return fmt.Sprintf("got      %s\nexpected %s\nin the graph (max_actions %d)\n%s", got, want, max, g.text)
			}
			return ""
		})
	}
}

// adorn gives the links the data that is exported with them.
func adorn(r *rand.Rand, l *Link) {
	if r.Intn(3) == 0 {
		l.Labels = append(l.Labels, []string{"l1", "A.l2"}[:1+r.Intn(2)]...)
	}
	if r.Intn(3) == 0 {
		l.Returns = starlark.StringDict{}
		for _, k := range []string{"b", "A", "R#0.f"}[:1+r.Intn(3)] {
			l.Returns[k] = []starlark.Value{starlark.MakeInt(r.Intn(5)), starlark.String("x"), starlark.None, starlark.NewList([]starlark.Value{starlark.MakeInt(1)})}[r.Intn(4)]
		}
	}
	if r.Intn(3) == 0 {
		l.Messages = append(l.Messages, &ast.Message{Sender: "R#0", Receivers: []string{"S#1"}, Name: "m", IsReturn: r.Intn(2) == 0, Values: []*ast.NameValue{{Name: "v", Value: fmt.Sprint(r.Intn(9))}}})
	}
	if r.Intn(3) == 0 {
		l.ThreadsMap = map[int]int{0: r.Intn(3), 1: 0}
	}
	l.ReqId = r.Intn(4)
}

func pbMsg(l []*pb.Message) string {
	s := ""
	for _, m := range l {
		s += fmt.Sprintf("(%s>%v %s %v %v", m.Sender, m.Receivers, m.Name, m.IsReturn, m.Lossy)
		for _, v := range m.Values {
			s += fmt.Sprintf(" %s=%s", v.Name, v.Value)
		}
		s += ")"
	}
	return s
}

// showLink: everything that is exported with a link.
func showLink(src, dest int64, l *Link, weight float64) string {
	var th, rt []string
	for k, v := range l.ThreadsMap {
		th = append(th, fmt.Sprintf("%d:%d", k, v))
	}
	for k, v := range l.Returns {
		rt = append(rt, k+"="+v.String())
	}
	sort.Strings(th)
	sort.Strings(rt)
	return fmt.Sprintf("%d>%d %q type=%q req=%d labels=%v weight=%.6f threads=%v returns=%v messages=%s", src, dest, l.Name, l.Type, l.ReqId, l.Labels, weight, th, rt, pbMsg(l.Messages))
}

func showPb(l *pb.Link) string {
	var th, rt []string
	for k, v := range l.NewToOldThreads {
		th = append(th, fmt.Sprintf("%d:%d", k, v))
	}
	for _, v := range l.Returns {
		rt = append(rt, v.Name+"="+v.Value)
	}
	sort.Strings(th)
	return fmt.Sprintf("%d>%d %q type=%q req=%d labels=%v weight=%.6f threads=%v returns=%v messages=%s", l.Src, l.Dest, l.Name, l.Type, l.ReqId, l.Labels, l.Weight, th, rt, pbMsg(l.Messages))
}

func diffLists(what string, got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "nothing", "nothing"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return fmt.Sprintf("%s %d: got      %s\n   expected %s", what, i, g, w)
		}
	}
	return ""
}

func TestVerif_C17Files(t *testing.T) {
	r := vstart(t, "files", "the node and link files of explored graphs, read back, hold every node once and in order with its state, and every link with its ends, name, labels, messages, threads, return values and share; nodes without links end in themselves")
	defer r.end()
	dir, err := os.MkdirTemp("", "c17")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	n := 110
	if r.thorough {
		n = 1500
	}
	for i := 0; i < n && r.nfail < 12; i++ {
		seed := r.rng.Int63()
		rng := rand.New(rand.NewSource(seed))
		p := genProg(rng, i%2 == 0)
		if i%3 == 0 {
			p = genCrash(rng)
		}
		if _, ok := refOf(p, 300); !ok {
			continue
		}
		r.check(fmt.Sprintf("prog%d", seed), p.text(), func() string {
			rr := p.runReal("bfs", nil)
			if rr.err != nil {
				return ""
			}
			nodes, _, _, _ := GetAllNodes(rr.init, 1000)
			index := map[*Node]int64{}
			var wantNodes, wantLinks []string
			for i, nd := range nodes {
				if j, ok := index[nd]; ok {
					return fmt.Sprintf("a node is listed twice, at %d and %d", j, i)
				}
				index[nd] = int64(i)
				wantNodes = append(wantNodes, realLabel(nd.Process)+" "+nd.Name)
			}
			for i, nd := range nodes {
				if len(nd.Outbound) == 0 {
					wantLinks = append(wantLinks, showLink(int64(i), int64(i), &Link{Name: "end", Type: "action"}, 1))
				}
				for _, l := range nd.Outbound {
					adorn(rng, l)
					j, ok := index[l.Node]
					if !ok {
						return fmt.Sprintf("node %d has a link to a node that is not listed", i)
					}
					wantLinks = append(wantLinks, showLink(int64(i), j, l, 1/float64(len(nd.Outbound))))
				}
			}
			sub := filepath.Join(dir, fmt.Sprint(r.n), "deeper") + "/"
			nf, lf, err := GenerateProtoOfJson(nodes, sub)
			if err != nil {
				return fmt.Sprint(err)
			}
			g, err := readGraph(nf, lf)
			if err != nil {
				return fmt.Sprint(err)
			}
			os.RemoveAll(filepath.Join(dir, fmt.Sprint(r.n)))
			if g.total != int64(len(nodes)) {
				return fmt.Sprintf("the files say %d nodes, there are %d", g.total, len(nodes))
			}
			var gotNodes, gotLinks []string
			for _, s := range g.json {
				j := &jnode{}
				if err := json.Unmarshal([]byte(s), j); err != nil {
					return fmt.Sprint(err)
				}
				gotNodes = append(gotNodes, j.label()+" "+j.Name)
			}
			for _, l := range g.links {
				gotLinks = append(gotLinks, showPb(l))
			}
			if d := diffLists("node", gotNodes, wantNodes); d != "" {
				return d
			}
			return diffLists("link", gotLinks, wantLinks)
		})
	}
}

func TestVerif_C17ErrorFiles(t *testing.T) {
	r := vstart(t, "errorfiles", "the files and the drawing of an error path hold its nodes and links, in order")
	defer r.end()
	dir, err := os.MkdirTemp("", "c17")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	n := 300
	if r.thorough {
		n = 4000
	}
	edge := regexp.MustCompile(`^    "(\d+)" -> "(\d+)" \[label="(\d+): (.*)", color=`)
	node := regexp.MustCompile(`^    "(\d+)" \[label="([^"\\]*)`)
	for i := 0; i < n && r.nfail < 12; i++ {
		seed := r.rng.Int63()
		rng := rand.New(rand.NewSource(seed))
		g := genGraph(rng)
		nd := g.nodes[0]
		path := []*Link{{Node: nd, Name: "Init"}}
		for k := rng.Intn(12); k > 0 && len(nd.Outbound) > 0; k-- {
			l := nd.Outbound[rng.Intn(len(nd.Outbound))]
			c := *l
			adorn(rng, &c)
			path = append(path, &c)
			nd = l.Node
		}
		r.check(fmt.Sprintf("path%d", seed), fmt.Sprint(len(path), "\n", g.text), func() string {
			nf, lf, err := GenerateErrorPathProtoOfJson(path, filepath.Join(dir, "x")+"/")
			if err != nil {
				return fmt.Sprint(err)
			}
			f, err := readGraph(nf, lf)
			if err != nil {
				return fmt.Sprint(err)
			}
			num := func(n *Node) string { return n.Heap.state["n"].String() }
			var want, got []string
			first := map[*Node]int{}
			for i, l := range path {
				want = append(want, num(l.Node))
				if _, ok := first[l.Node]; !ok {
					first[l.Node] = i
				}
			}
			for _, s := range f.json {
				j := &jnode{}
				if err := json.Unmarshal([]byte(s), j); err != nil {
					return fmt.Sprint(err)
				}
				got = append(got, fmt.Sprint(j.State["n"]))
			}
			if d := diffLists("node", got, want); d != "" {
				return d
			}
			want, got = nil, nil
			for i, l := range path[1:] {
				c := *l
				c.ThreadsMap, c.Type = nil, ""
				want = append(want, showLink(int64(i), int64(i+1), &c, 1))
			}
			for _, l := range f.links {
				l.NewToOldThreads, l.Type = nil, ""
				got = append(got, showPb(l))
			}
			if d := diffLists("link", got, want); d != "" {
				return d
			}
			if len(path) > 1 && f.total != int64(len(path)) {
				return fmt.Sprintf("the files say %d nodes, there are %d", f.total, len(path))
			}
			// the drawing: a node for each different node of the path, an arrow for each step
			want, got = nil, nil
			for i, l := range path {
				if first[l.Node] == i {
					want = append(want, fmt.Sprintf("node %d %s", i, l.Node.Name))
				}
				if i > 0 {
					want = append(want, fmt.Sprintf("%d > %d by %d: %s", first[path[i-1].Node], first[l.Node], i, l.Name))
				}
			}
			dot := GenerateFailurePath(path, "", nil)
			for _, line := range strings.Split(dot, "\n") {
				if m := edge.FindStringSubmatch(line); m != nil {
					got = append(got, fmt.Sprintf("%s > %s by %s: %s", m[1], m[2], m[3], m[4]))
				} else if m := node.FindStringSubmatch(line); m != nil {
					got = append(got, fmt.Sprintf("node %s %s", m[1], m[2]))
				}
			}
			return diffLists("line", got, want)
		})
	}
}

func TestVerif_C17Drawing(t *testing.T) {
	r := vstart(t, "drawing", "the drawing of a graph has exactly the enabled nodes that are reached through enabled nodes, and exactly the links between them, with their names")
	defer r.end()
	n := 1500
	if r.thorough {
		n = 30000
	}
	edge := regexp.MustCompile(`^  "(0x[0-9a-f]+)" -> "(0x[0-9a-f]+)" \[label="([^"]*)", color=`)
	node := regexp.MustCompile(`^  "(0x[0-9a-f]+)" \[label="`)
	for i := 0; i < n && r.nfail < 12; i++ {
		seed := r.rng.Int63()
		g := genGraph(rand.New(rand.NewSource(seed)))
		r.check(fmt.Sprintf("graph%d", seed), g.text, func() string {
			ids := map[string]int{}
			for j, nd := range g.nodes {
				ids[fmt.Sprintf("%p", nd)] = j
			}
			var want, got []string
			seen := map[*Node]bool{}
			var walk func(n *Node)
			walk = func(n *Node) {
				if seen[n] || !n.Enabled {
					return
				}
				seen[n] = true
				want = append(want, fmt.Sprintf("node %s", n.Heap.state["n"]))
				for _, l := range n.Outbound {
					if l.Node.Enabled {
						want = append(want, fmt.Sprintf("%s > %s by %s", n.Heap.state["n"], l.Node.Heap.state["n"], l.Name))
						walk(l.Node)
					}
				}
			}
			walk(g.nodes[0])
			for _, line := range strings.Split(GenerateDotFile(g.nodes[0], map[*Node]bool{}), "\n") {
				if m := edge.FindStringSubmatch(line); m != nil {
					got = append(got, fmt.Sprintf("%d > %d by %s", ids[m[1]], ids[m[2]], m[3]))
				} else if m := node.FindStringSubmatch(line); m != nil {
					got = append(got, fmt.Sprintf("node %d", ids[m[1]]))
				}
			}
			sort.Strings(want)
			sort.Strings(got)
			return diffLists("line", got, want)
		})
	}
}

func TestVerif_C17Exported(t *testing.T) {
	r := vstart(t, "exported", "the files the command line tool writes for a random program hold exactly the observable histories of the language (independent interpreter)")
	defer r.end()
	if !usesCLI() {
		return
	}
	n := 150
	if r.thorough {
		n = 2500
	}
	type job struct {
		seed int64
		p    *prog
		ref  *lts
		diff string
	}
	var jobs []*job
	for i := 0; len(jobs) < n && i < 20*n; i++ {
		seed := r.rng.Int63()
		p := genProg(rand.New(rand.NewSource(seed)), i%2 == 0)
		ref, ok := refOf(p, 300)
		if !ok {
			continue
		}
		jobs = append(jobs, &job{seed: seed, p: p, ref: ref})
	}
	cliPar(len(jobs), func(i int) {
		j := jobs[i]
		o := cliRun(j.p.file(), j.p.cliYaml("deadlock_detection: false\nliveness: \"false\"\n"), true)
		defer os.RemoveAll(filepath.Dir(o.dir))
		if o.timedOut {
			return
		}
		if !o.passed() {
			j.diff = "the tool did not pass: " + tail(o.out, 400)
			return
		}
		runs, _ := filepath.Glob(filepath.Join(o.dir, "*", "nodes_0*.pb"))
		d := o.dir
		if len(runs) > 0 {
			d = filepath.Dir(runs[0])
		}
		g, err := readGraphDir(d)
		if err != nil {
			j.diff = fmt.Sprint(err)
			return
		}
		l, err := g.lts()
		if err != nil {
			j.diff = fmt.Sprint(err)
			return
		}
		j.diff = histories(l, j.ref, 100000)
	})
	for _, j := range jobs {
		r.check(fmt.Sprintf("prog%d", j.seed), j.p.text(), func() string {
			if j.diff != "" {
				return j.diff + "\nin the program\n" + j.p.text()
			}
			return ""
		})
	}
}
