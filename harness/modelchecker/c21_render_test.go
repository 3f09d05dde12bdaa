package modelchecker

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing"

	ast "fizz/proto"

	"github.com/fizzbee-io/fizzbee/lib"
	"go.starlark.net/starlark"

	"google.golang.org/protobuf/proto"
)

// C21: what a run prints and writes is determined by the specification and the options.

var _ = usesCLI

// richSpec is a random specification that uses the features whose rendering involves collections without an order:
// calls between role instances with several arguments, returned values, roles of several kinds, messages in several
// channels, sets, dicts, records, enums, fair and unfair actions, assertions that fail.
func richSpec(rng *rand.Rand) *ast.File {
	lit := func() string {
		return []string{"0", "1", "'x'", "[1, 2]", "{'k': 1, 'l': 2}", "set([1, 2])", "record(f=1, g='y')", "(1, 'z')", "bag([1, 1])"}[rng.Intn(9)]
	}
	fair := func(a *ast.Action) *ast.Action {
		if n := rng.Intn(4); n > 0 {
			a.Fairness = &ast.Fairness{Level: ast.FairnessLevel(n), SourceInfo: mksi()}
		}
		return a
	}
	call := func(recv, name string, args ...string) *ast.Statement {
		s := mkcall(recv, name)
		for _, a := range args {
			kv := strings.SplitN(a, "=", 2)
			s.CallStmt.Args = append(s.CallStmt.Args, &ast.Argument{Name: kv[0], PyExpr: kv[1], Expr: mkex(kv[1])})
		}
		return s
	}
	flow := func() ast.Flow { return []ast.Flow{mkA, mkS, mkS}[rng.Intn(3)] }
	var roles []*ast.Role
	var init []*ast.Statement
	channels := rng.Intn(3)
	for j := 0; j < channels; j++ {
		init = append(init, mkpy(fmt.Sprintf("ch%d = Channel(ordering='unordered', delivery='%s', blocking='fire_and_forget')", j, "exactly_once")))
	}
	kinds := []string{"Server", "Client", "Admin"}[:2+rng.Intn(2)]
	for j, kind := range kinds {
		ro := &ast.Role{Name: kind, SourceInfo: mksi(), Actions: []*ast.Action{mkact("Init", mkA, mkpy("self.u = 0"), mkpy("self.v = 0"))}}
		params := []string{"pa", "pb", "pc", "pd"}[:1+rng.Intn(4)]
		fn := mkfn("handle", flow(), mkpy("self.u = "+lit()), mkret([]string{"", "pa", lit()}[rng.Intn(3)]))
		for _, p := range params {
			fn.Params = append(fn.Params, &ast.Parameter{Name: p})
		}
		ro.Functions = append(ro.Functions, fn)
		name := strings.ToLower(kind)
		count := 1 + rng.Intn(2)
		for k := 0; k < count; k++ {
			init = append(init, mkpy(fmt.Sprintf("%s%d = %s()", name, k, kind)))
			for c := 0; c < channels; c++ {
				init = append(init, mkpy(fmt.Sprintf("stub_%s%d_%d = ch%d.stub(%s%d)", name, k, c, c, name, k)))
			}
		}
		if j > 0 {
			prev := strings.ToLower(kinds[j-1])
			pf := roles[j-1].Functions[0]
			var args []string
			for _, p := range pf.Params {
				args = append(args, p.Name+"="+lit())
			}
			body := []*ast.Statement{mkreq("self.v < 1"), mkpy("self.v += 1")}
			for k := 1 + rng.Intn(2); k > 0; k-- {
				recv := prev + "0"
				if channels > 0 && rng.Intn(2) == 0 {
					recv = fmt.Sprintf("stub_%s0_%d", prev, rng.Intn(channels))
				}
				body = append(body, call(recv, "handle", args...))
			}
			ro.Actions = append(ro.Actions, fair(mkact("Send"+kind, mkS, body...)))
		} else if rng.Intn(2) == 0 {
			ro.Actions = append(ro.Actions, fair(mkact("Tick", mkA, mkreq("self.v < 1"), mkpy("self.v += 1"))))
		}
		if rng.Intn(2) == 0 {
			ro.Actions = append(ro.Actions, fair(mkact("Poll", flow(), mkreq("self.v < 1"), mkany(mkA, "w", "[1, 2]", mkpy("self.v = w"), mkret("w")))))
		}
		roles = append(roles, ro)
	}
	f := &ast.File{Roles: roles, SourceInfo: mksi()}
	f.Actions = append(f.Actions, mkact("Init", mkA, append(init, mkpy("n = 0"), mkpy("m = {}"))...))
	f.Actions = append(f.Actions, fair(mkact("Step", flow(), mkreq("n < 2"), mkpy("n += 1"), mkpy("m['a%d' % n] = "+lit()))))
	if rng.Intn(2) == 0 {
		f.Actions = append(f.Actions, fair(mkact("Back", mkP, mkreq("n > 0"), mkpy("n = 0"), mkpy("m = {}"))))
	}
	if rng.Intn(2) == 0 {
		cond := []string{"n < 2", "server0.u == 0", "len(m) < 2", "True"}[rng.Intn(4)]
		inv := &ast.Invariant{Name: "Inv", TemporalOperators: []string{[]string{"always", "exists"}[rng.Intn(2)]}, SourceInfo: mksi(), Block: mkb(mkA, mkret(cond))}
		f.Invariants = append(f.Invariants, inv)
	}
	return f
}

var runRe = regexp.MustCompile(`run_\d{4}-\d\d-\d\d_\d\d-\d\d-\d\d`)
var ptrRe = regexp.MustCompile(`0x[0-9a-f]+`)
// plain gives the addresses in a text names in the order in which they occur, and leaves out times.
func plain(b []byte, dir string) []byte {
	names := map[string]string{}
	b = bytes.ReplaceAll(b, []byte(dir), []byte("DIR"))
	b = runRe.ReplaceAll(b, []byte("run_TIME"))
	return ptrRe.ReplaceAllFunc(b, func(p []byte) []byte {
		if names[string(p)] == "" {
			names[string(p)] = fmt.Sprintf("p%d", len(names))
		}
		return []byte(names[string(p)])
	})
}

// untimed leaves out the printed lines that tell a time.
func untimed(b []byte) []byte {
	var out [][]byte
	for _, l := range bytes.Split(b, []byte("\n")) {
		timed := false
		for _, w := range []string{"Time taken", "Stopped after", "elapsed", "emory", "duration", "seconds"} {
			timed = timed || bytes.Contains(l, []byte(w))
		}
		if !timed {
			out = append(out, l)
		}
	}
	return bytes.Join(out, []byte("\n"))
}

// outputs reads everything a run wrote.
func outputs(o *cliOut) map[string]string {
	dir := filepath.Dir(o.dir)
	m := map[string]string{"(printed)": string(plain(untimed([]byte(o.out)), dir)), "(exit code)": fmt.Sprint(o.code)}
	filepath.Walk(o.dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(o.dir, p)
			m[rel] = string(plain(b, dir))
		}
		return nil
	})
	return m
}

func diffOutputs(a, b map[string]string) string {
	var names []string
	for k := range a {
		names = append(names, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	for _, k := range names {
		x, okx := a[k]
		y, oky := b[k]
		if okx != oky {
			return fmt.Sprintf("only one of two runs writes %s", k)
		}
		if x != y {
			lx, ly := strings.Split(x, "\n"), strings.Split(y, "\n")
			for i := range lx {
				if i >= len(ly) || lx[i] != ly[i] {
					other := ""
					if i < len(ly) {
						other = ly[i]
					}
					return fmt.Sprintf("two runs differ in %s, line %d:\n  %.300q\n  %.300q", k, i+1, lx[i], other)
				}
			}
			return fmt.Sprintf("two runs differ in the length of %s", k)
		}
	}
	return ""
}

func TestVerif_C21Reproducible(t *testing.T) {
	r := vstart(t, "reproducible", "runs of the command line tool with the same specification, options and seed print and write the same (addresses renamed in order of occurrence, times left out)")
	defer r.end()
	if !usesCLI() {
		return
	}
	n := 30
	if r.thorough {
		n = 500
	}
	modes := [][]string{{}, {"--exploration_strategy", "dfs"}, {"--exploration_strategy", "random", "--seed", "7"}, {"--experimental_processed_queue"}, {"--experimental_no_graph"}, {"--simulation", "--seed", "5", "--max_runs", "3"}}
	type job struct {
		seed int64
		f    *ast.File
		mode []string
		diff string
		kind string
	}
	jobs := make([]*job, n)
	for i := range jobs {
		seed := r.rng.Int63()
		jobs[i] = &job{seed: seed, f: richSpec(rand.New(rand.NewSource(seed))), mode: modes[i%len(modes)]}
	}
	cliPar(n, func(i int) {
		j := jobs[i]
		yaml := "options:\n  max_actions: 3\n  max_concurrent_actions: 2\n  crash_on_yield: " + []string{"true", "false"}[i%2] + "\ndeadlock_detection: false\n"
		var first map[string]string
		for k := 0; k < 3 && j.diff == ""; k++ {
			o := cliRun(proto.Clone(j.f).(*ast.File), yaml, true, j.mode...)
			m := outputs(o)
			os.RemoveAll(filepath.Dir(o.dir))
			if o.timedOut {
				return
			}
			j.kind = o.verdict()
			if strings.Contains(o.out, "goroutine ") && strings.Contains(o.out, "panic:") {
				j.diff = "the run ends in an internal error: " + tail(o.out[strings.Index(o.out, "panic:"):min(len(o.out), strings.Index(o.out, "panic:")+1500)], 1500)
			}
			if first == nil {
				first = m
				continue
			}
			if j.diff != "" {
				continue
			}
			j.diff = diffOutputs(first, m)
		}
	})
	for _, j := range jobs {
		id := fmt.Sprintf("spec%d%v", j.seed, j.mode)
		r.check(id, id+" "+j.kind, func() string {
			if j.diff != "" {
				return j.diff + "\nfor\n" + j.f.String()
			}
			return ""
		})
	}
}

// TestVerif_C21Recorded evaluates the contracts of RecordCall and returnsToNameValues on generated frames and returns.
func TestVerif_C21Recorded(t *testing.T) {
	r := vstart(t, "recorded", "what a step records of calls and returned values, against the list in the order of the names")
	defer r.end()
	n := 300
	if r.thorough {
		n = 5000
	}
	names := []string{"a", "b", "c", "d", "e", "f", "g", "h", "Peer#0.Act", "Peer#1.Act", "é", "A"}
	dict := func() starlark.StringDict {
		d := starlark.StringDict{}
		for k := r.rng.Intn(8); k > 0; k-- {
			d[names[r.rng.Intn(len(names))]] = []starlark.Value{starlark.MakeInt(r.rng.Intn(9)), starlark.String("x"), starlark.None, starlark.NewList([]starlark.Value{starlark.True})}[r.rng.Intn(4)]
		}
		return d
	}
	expect := func(d starlark.StringDict) string {
		keys := make([]string, 0, len(d))
		for k := range d {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		s := ""
		for _, k := range keys {
			s += k + "=" + d[k].String() + ";"
		}
		return s
	}
	show := func(vs []*ast.NameValue) string {
		s := ""
		for _, v := range vs {
			s += v.Name + "=" + v.Value + ";"
		}
		return s
	}
	roles := []*lib.Role{nil}
	for _, k := range []string{"Peer", "Peer", "Peers", "Node"} {
		roles = append(roles, &lib.Role{Name: k, ID: lib.NewModelValue(k, int64(len(roles))), Fields: nil})
	}
	for i := 0; i < n && r.nfail < 12; i++ {
		d := dict()
		r.check(fmt.Sprintf("returns:case%d", i), expect(d), func() string {
			if got := show(returnsToNameValues(d)); got != expect(d) {
				return "the returned values " + expect(d) + " are rendered as " + got
			}
			return ""
		})
		from, to := roles[r.rng.Intn(len(roles))], roles[r.rng.Intn(len(roles))]
		flow := []ast.Flow{ast.Flow_FLOW_ATOMIC, ast.Flow_FLOW_SERIAL}[r.rng.Intn(2)]
		v := dict()
		in := fmt.Sprintf("a call from %v to %v with %s, %v", roleName(from), roleName(to), expect(v), flow)
		r.check(fmt.Sprintf("call:case%d", i), in, func() string {
			p := NewProcess("p", nil, nil)
			before := &ast.Message{Name: "before"}
			p.Messages = append(p.Messages, before)
			p.RecordCall(&CallFrame{obj: from, Name: "caller"}, &CallFrame{obj: to, Name: "callee", vars: v}, flow)
			if len(p.Messages) == 0 || p.Messages[0] != before {
				return "the messages recorded before are lost"
			}
			got := p.Messages[1:]
			if from == to {
				if len(got) != 0 {
					return fmt.Sprintf("a call that stays inside is recorded: %v", got)
				}
				return ""
			}
			if len(got) != 1 {
				return fmt.Sprintf("%d messages are recorded", len(got))
			}
			m := got[0]
			rcv := ""
			if len(m.Receivers) > 0 {
				rcv = m.Receivers[0]
			}
			if m.Name != "callee" || m.Sender != roleName(from) || rcv != roleName(to) || len(m.Receivers) > 1 {
				return fmt.Sprintf("recorded as %v", m)
			}
			if show(m.Values) != expect(v) {
				return "the arguments are recorded as " + show(m.Values)
			}
			if m.Lossy != (flow != ast.Flow_FLOW_ATOMIC) {
				return fmt.Sprintf("lossy is %v", m.Lossy)
			}
			return ""
		})
	}
}

func roleName(r *lib.Role) string {
	if r == nil {
		return ""
	}
	return r.RefStringShort()
}

// TestVerif_C21LivePath repeats the nondeterministic liveness checks on random graphs in which several states are equally near.
func TestVerif_C21LivePath(t *testing.T) {
	r := vstart(t, "livepath", "the failing path of the nondeterministic liveness checks, computed several times on random graphs")
	defer r.end()
	n := 60
	if r.thorough {
		n = 1500
	}
	levels := []ast.FairnessLevel{ast.FairnessLevel_FAIRNESS_LEVEL_WEAK, ast.FairnessLevel_FAIRNESS_LEVEL_STRONG, ast.FairnessLevel_FAIRNESS_LEVEL_WEAK, ast.FairnessLevel_FAIRNESS_LEVEL_UNFAIR}
	for i := 0; i < n && r.nfail < 12; i++ {
		size := 3 + r.rng.Intn(6)
		var nodes []*Node
		good := map[*Node]bool{}
		desc := ""
		link := func(a, b int) {
			l := levels[r.rng.Intn(len(levels))]
			name := fmt.Sprintf("%d-%d", a, b)
			desc += fmt.Sprintf(" %s(%d)", name, l)
			nodes[a].Outbound = append(nodes[a].Outbound, &Link{Node: nodes[b], Name: name, Fairness: l})
			nodes[b].Inbound = append(nodes[b].Inbound, &Link{Node: nodes[a], Name: name, Fairness: l})
		}
		for k := 0; k < size; k++ {
			nd := NewNode(NewProcess(fmt.Sprint("n", k), nil, nil))
			nodes = append(nodes, nd)
			if k > 0 {
				p := r.rng.Intn((k + 1) / 2)
				nd.actionDepth = nodes[p].actionDepth + 1
				link(p, k)
			}
			good[nd] = r.rng.Intn(3) == 0
			desc += fmt.Sprintf(" n%d:%v", k, good[nd])
		}
		for k := 0; k < size; k++ { // where there is no link, the run ends
			if r.rng.Intn(5) > 0 {
				link(k, r.rng.Intn(size))
			}
		}
		pred := func(n *Node) (bool, bool) { return true, good[n] }
		for name, f := range map[string]func([]*Node, Predicate) ([]*Link, bool){"always eventually": AlwaysEventuallyFast, "eventually always": EventuallyAlwaysFast} {
			r.check(fmt.Sprintf("%s:case%d", name, i), desc, func() string {
				first := ""
				for k := 0; k < 8; k++ {
					path, ok := f(nodes, pred)
					s := fmt.Sprint(ok)
					for _, l := range path {
						s += fmt.Sprintf(" %s>%s", l.Name, l.Node.Process.Name)
					}
					if k > 0 && s != first {
						return fmt.Sprintf("%s of%s: once %s, once %s", name, desc, first, s)
					}
					first = s
				}
				return ""
			})
		}
	}
}
