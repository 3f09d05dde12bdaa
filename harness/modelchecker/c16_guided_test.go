package modelchecker

import (
	ast "fizz/proto"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/fizzbee-io/fizzbee/lib"
)

// Guided exploration (bounded): the paths it follows are exactly those of the complete graph whose steps are the lines
// of the trace, threads that continue left out, and as many steps more as asked for.
// The complete graph is the one explored without a trace (C10, C11 compare it with an independent interpreter).

type gstate struct {
	n        *Node
	idx, ext int
}

type gresult struct {
	yields map[string]bool // label @ lines followed
	max    int             // lines followed on the longest path
}

// guidedRef follows the trace in the complete graph; ok is false when threads can go on for ever without a line.
func guidedRef(root *Node, trace []string, extend int) (g *gresult, ok bool) {
	g = &gresult{yields: map[string]bool{}}
	color := map[gstate]int{}
	size := map[gstate]int{} // of the tree of paths: guided exploration merges nothing
	ok = true
	var visit func(s gstate)
	visit = func(s gstate) {
		if !ok {
			return
		}
		if color[s] == 1 || size[s] > 2000 {
			ok = false
			return
		}
		if color[s] == 2 {
			return
		}
		color[s] = 1
		if s.idx > g.max {
			g.max = s.idx
		}
		if isYieldPoint(s.n) {
			g.yields[fmt.Sprintf("%s @%d", realLabel(s.n.Process), s.idx)] = true
		}
		for _, l := range s.n.Outbound {
			t := gstate{l.Node, s.idx, s.ext}
			switch {
			case strings.HasPrefix(l.Name, "thread-"):
			case s.idx < len(trace):
				if l.Name != trace[s.idx] {
					continue
				}
				t.idx++
			case extend == 0:
				continue
			case s.ext >= extend && (isYieldPoint(s.n) || s.n.Name == "init"):
				continue
			default:
				if t.ext <= extend {
					t.ext++
				}
			}
			visit(t)
			size[s] += size[t]
		}
		size[s]++
		if size[s] > 2000 {
			ok = false
		}
		color[s] = 2
	}
	visit(gstate{root, 0, 0})
	return g, ok
}

// guidedReal explores with the trace.
func (p *prog) guidedReal(trace []string, extend int) (g *gresult, err interface{}) {
	gt := &GuidedTrace{LinkNames: trace, ExtendDepth: extend}
	lib.ClearRoleRefs()
	defer quiet()()
	defer func() {
		if e := recover(); e != nil {
			err = e
		}
	}()
	proc := NewProcessor([]*ast.File{p.file()}, p.options(), false, 1, "", "bfs", true, nil, gt, "")
	late := false
	wd := time.AfterFunc(20*time.Second, func() { late = true; proc.Stop() })
	defer wd.Stop()
	init, _, e := proc.Start()
	if e != nil {
		return nil, e
	}
	if late {
		return nil, "guided exploration did not end within 20 s"
	}
	g = &gresult{yields: map[string]bool{}}
	for _, n := range allNodes(init) {
		if isYieldPoint(n) {
			g.yields[fmt.Sprintf("%s @%d", realLabel(n.Process), n.Process.guidedTrace.currentIndex)] = true
		}
	}
	g.max = gt.GetCurrentIndex()
	return g, nil
}

func setDiff(a, b map[string]bool) string {
	var l []string
	for k := range a {
		if !b[k] {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	if len(l) > 3 {
		l = l[:3]
	}
	return strings.Join(l, "; ")
}

// randomTrace: the names along a random path of the graph, now and then with a line that does not fit.
func randomTrace(rng *rand.Rand, root *Node, max int) []string {
	var t []string
	n := root
	for steps := 0; len(t) < max && len(n.Outbound) > 0 && steps < 200; steps++ {
		l := n.Outbound[rng.Intn(len(n.Outbound))]
		if !strings.HasPrefix(l.Name, "thread-") {
			t = append(t, l.Name)
		}
		n = l.Node
	}
	if len(t) > 0 && rng.Intn(4) == 0 {
		k := rng.Intn(len(t))
		switch rng.Intn(3) {
		case 0:
			t[k] = "Nothing"
		case 1:
			t = append(t[:k], t[k+1:]...)
		default:
			t = append(t, t[k])
		}
	}
	return t
}

func crashAfterCrash(trace []string) bool {
	for i := 1; i < len(trace); i++ {
		if strings.HasPrefix(trace[i-1], "crash") && (trace[i] == "crash" || strings.HasPrefix(trace[i], "Stmt:")) {
			return true
		}
	}
	return false
}

func TestVerif_C16Paths(t *testing.T) {
	r := vstart(t, "paths", "random programs and traces: guided exploration reaches exactly the yield points that the complete graph reaches by following the trace (threads that continue need no line), and `extend` steps more; how far the trace was followed is counted right")
	defer r.end()
	n := 400
	if r.thorough {
		n = 4000
	}
	for i := 0; i < n && r.nfail < 12; i++ {
		seed := r.rng.Int63()
		rng := rand.New(rand.NewSource(seed))
		p := genProg(rng, rng.Intn(3) == 0)
		if rng.Intn(5) == 0 {
			p = genCrash(rng)
		}
		if len(p.actions) > 1 && !p.crash && rng.Intn(4) == 0 {
			p.actions[1].name = "threadA" // an action like any other
		}
		if _, ok := refOf(p, 150); !ok {
			continue
		}
		rr := p.runReal("bfs", nil)
		if rr.err != nil || rr.init == nil {
			continue
		}
		for k := 0; k < 4; k++ {
			trace := randomTrace(rng, rr.init, 1+rng.Intn(6))
			extend := []int{0, 0, 1, 2}[rng.Intn(4)]
			if k == 3 && rng.Intn(2) == 0 {
				trace, extend = nil, 1+rng.Intn(3)
			}
			if p.crash {
				extend = 0 // whether a thread may crash directly after another crash is left open (C14)
			}
			if len(trace) == 0 && extend == 0 || crashAfterCrash(trace) {
				continue
			}
			want, ok := guidedRef(rr.init, trace, extend)
			if !ok || len(want.yields) > 60 {
				continue
			}
			r.check(fmt.Sprintf("prog%d/%d", seed, k), p.text()+"\ntrace "+strings.Join(trace, ", "), func() string {
				got, err := p.guidedReal(trace, extend)
				if err != nil {
					return fmt.Sprintf("the checker failed: %v\n%s", err, p.text())
				}
				d := ""
				if x := setDiff(want.yields, got.yields); x != "" {
					d = "not reached: " + x
				} else if x := setDiff(got.yields, want.yields); x != "" {
					d = "reached, but not by following the trace: " + x
				} else if got.max < want.max || got.max > want.max+1 {
					// (one more: a step that turns out to do nothing is not part of the graph)
					d = fmt.Sprintf("%d lines of the trace were followed, the checker says %d", want.max, got.max)
				}
				if d == "" {
					return ""
				}
				return fmt.Sprintf("trace [%s] extended by %d: %s\nin the program\n%s", strings.Join(trace, ", "), extend, d, p.text())
			})
		}
	}
}

func TestVerif_C16Files(t *testing.T) {
	r := vstart(t, "files", "random trace files: the lines that are neither empty nor comments, without surrounding blanks, in order; a trace without such a line is refused")
	defer r.end()
	n := 300
	if r.thorough {
		n = 3000
	}
	dir := t.TempDir()
	for i := 0; i < n && r.nfail < 12; i++ {
		var lines, want []string
		for k := r.rng.Intn(7); k > 0; k-- {
			pad := func() string { return strings.Repeat([]string{" ", "\t"}[r.rng.Intn(2)], r.rng.Intn(3)) }
			name := []string{"A", "R#0.Act", "Any:x=1", "thread-1", "crash-role R#0", "x # y", "#c", "# A", "", "Stmt:2", "For:\"a b\"", "Any:x=\"no #1\"", "a  b"}[r.rng.Intn(13)]
			lines = append(lines, pad()+name+pad())
			if name != "" && name[0] != '#' {
				want = append(want, name)
			}
		}
		txt := strings.Join(lines, []string{"\n", "\r\n"}[r.rng.Intn(2)])
		if r.rng.Intn(2) == 0 && txt != "" {
			txt += "\n"
		}
		r.check(fmt.Sprintf("file%d", i), txt, func() string {
			file := filepath.Join(dir, fmt.Sprint(i))
			if err := os.WriteFile(file, []byte(txt), 0644); err != nil {
				return err.Error()
			}
			a, e1 := ParseTraceString(txt)
			b, e2 := ParseTraceFile(file)
			if len(want) == 0 {
				if e1 == nil || e2 == nil {
					return fmt.Sprintf("%q: an empty trace is accepted", txt)
				}
				return ""
			}
			if e1 != nil || e2 != nil {
				return fmt.Sprintf("%q is refused: %v %v", txt, e1, e2)
			}
			for _, x := range []*GuidedTrace{a, b} {
				if strings.Join(x.LinkNames, "|") != strings.Join(want, "|") || x.GetCurrentIndex() != 0 || x.IsExhausted() {
					return fmt.Sprintf("%q is read as %q", txt, x.LinkNames)
				}
			}
			return ""
		})
	}
}

// The command line tool: with a trace, the verdict is about the paths that follow it; and the trace that a run
// without a graph prints on a violation leads a guided run to that violation.
func TestVerif_C16Replay(t *testing.T) {
	if !usesCLI() {
		t.Skip()
	}
	r := vstart(t, "replay", "random programs with an assertion, command line tool: a guided run reports the violations on the paths that follow the trace and no others, and says how far an incomplete trace was followed; the trace printed without a graph leads a guided run to the same violation")
	defer r.end()
	n := 120
	if r.thorough {
		n = 1500
	}
	type job struct {
		id, text string
		p        *prog
		a        *sasrt
		trace    []string
		extend   int
		want     *gresult
		bad      bool
		outs     [3]*cliOut
		replay   []string
	}
	var jobs []*job
	for tries := 0; len(jobs) < n && tries < 4*n; tries++ {
		seed := r.rng.Int63()
		rng := rand.New(rand.NewSource(seed))
		roles := rng.Intn(3) == 0
		p := genProg(rng, roles)
		p.maxC = 1 // a guided run of the tool starts an action when the one before has ended
		if _, ok := refOf(p, 120); !ok {
			continue
		}
		rr := p.runReal("bfs", nil)
		if rr.err != nil || rr.init == nil {
			continue
		}
		j := &job{id: fmt.Sprintf("prog%d", seed), p: p, a: sgenAsrt(rng, 0, roles, "always"), trace: randomTrace(rng, rr.init, 1+rng.Intn(5)), extend: rng.Intn(2)}
		if len(j.trace) == 0 {
			continue
		}
		var ok bool
		if j.want, ok = guidedRef(rr.init, j.trace, j.extend); !ok || len(j.want.yields) > 60 {
			continue
		}
		for l := range j.want.yields {
			if !j.a.state(labelVals(l[:strings.LastIndex(l, " @")])) {
				j.bad = true
			}
		}
		j.text = fmt.Sprintf("%s\nalways assertion: return %s\ntrace [%s] extended by %d", p.text(), j.a.code, strings.Join(j.trace, ", "), j.extend)
		jobs = append(jobs, j)
	}
	cliPar(len(jobs), func(i int) {
		j := jobs[i]
		f := func() *ast.File {
			f := j.p.file()
			f.Invariants = append(f.Invariants, j.a.ast())
			return f
		}
		yaml := j.p.cliYaml("deadlock_detection: false\nliveness: \"false\"\n")
		args := []string{"-trace", strings.Join(j.trace, "\n")}
		if j.extend > 0 {
			args = append(args, "-trace-extend", fmt.Sprint(j.extend))
		}
		j.outs[0] = cliRun(f(), yaml, false, args...)
		j.outs[1] = cliRun(f(), yaml, false, "-experimental_no_graph", "-experimental_processed_queue")
		if i := strings.Index(j.outs[1].out, "\nTrace ("); i >= 0 {
			for _, l := range strings.Split(j.outs[1].out[i+1:], "\n")[1:] {
				if !strings.HasPrefix(l, "  ") {
					break
				}
				j.replay = append(j.replay, l[2:])
			}
			if len(j.replay) > 0 {
				j.outs[2] = cliRun(f(), yaml, false, "-trace", strings.Join(j.replay, "\n"))
			}
		}
	})
	// two actions must be in progress to get to the violation
	r.check("concurrent-actions", "two concurrent serial actions", func() string {
		f := &ast.File{SourceInfo: mksi(), Actions: []*ast.Action{mkact("Init", mkA, mkpy("a = 0"), mkpy("b = 0")),
			mkact("A", ast.Flow_FLOW_SERIAL, mkreq("a == 0"), mkpy("a = 1"), mkpy("a = 0")), mkact("B", mkA, mkpy("b = a"))},
			Invariants: []*ast.Invariant{{Name: "Inv", TemporalOperators: []string{"always"}, SourceInfo: mksi(), Block: mkb(mkA, mkret("b == 0"))}}}
		o := cliRun(f, "options:\n  max_actions: 10\n  max_concurrent_actions: 2\n  crash_on_yield: false\ndeadlock_detection: false\nliveness: \"false\"\n", false, "-experimental_no_graph", "-experimental_processed_queue")
		if !o.failed() {
			return "no violation found: " + tail(o.out, 600)
		}
		if k := strings.Index(o.out, "=== Replaying"); k < 0 || !strings.Contains(o.out[k:], "FAILED") {
			return "the replay of the trace does not show the violation"
		}
		return ""
	})
	for _, j := range jobs {
		r.check(j.id, j.text, func() string {
			o := j.outs[0]
			inc := func(n int) bool {
				return n == len(j.trace) && !strings.Contains(o.out, "incomplete") || strings.Contains(o.out, fmt.Sprintf("Trace execution incomplete. Expected %d links, executed %d links.", len(j.trace), n))
			}
			switch {
			case o.timedOut || strings.Contains(o.out, "panic:"):
				return "the tool failed\n" + tail(o.out, 600) + "\n" + j.text
			case j.bad != o.failed():
				return fmt.Sprintf("a path that follows the trace violates the assertion: %v, the tool says %s\n%s\n%s", j.bad, o.verdict(), tail(o.out, 600), j.text)
			case j.bad:
			case j.want.max < len(j.trace):
				if !inc(j.want.max) && !inc(j.want.max+1) {
					return fmt.Sprintf("%d of %d lines can be followed, but:\n%s\n%s", j.want.max, len(j.trace), tail(o.out, 600), j.text)
				}
			case strings.Contains(o.out, "incomplete"):
				return "the trace can be followed to its end, but:\n" + tail(o.out, 600) + "\n" + j.text
			}
			if k := strings.Index(j.outs[1].out, "=== Replaying"); k >= 0 && !strings.Contains(j.outs[1].out[k:], "FAILED") {
				return fmt.Sprintf("the run without a graph does not show the violation when it replays its trace [%s]\n%s", strings.Join(j.replay, ", "), j.text)
			}
			if j.outs[2] != nil && !j.outs[2].failed() {
				return fmt.Sprintf("replaying the trace of the run without a graph [%s] gives %s\n%s", strings.Join(j.replay, ", "), tail(j.outs[2].out, 600), j.text)
			}
			return ""
		})
	}
}
