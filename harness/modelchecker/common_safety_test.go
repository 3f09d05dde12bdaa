package modelchecker

import (
	"encoding/json"
	ast "fizz/proto"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Programs with assertions, and the reference verdict and traces, for C12 and C13.

// svals: the integers of a state: "a", "R#0.u".
type svals map[string]int

var labelRoleRe = regexp.MustCompile(`([A-Za-z0-9]+#\d+)\{([^}]*)\}`)

func labelVals(l string) svals {
	v := svals{}
	put := func(pre, s string) {
		for _, kv := range strings.Split(s, ",") {
			if i := strings.Index(kv, "="); i > 0 {
				if n, err := strconv.Atoi(kv[i+1:]); err == nil {
					v[pre+kv[:i]] = n
				}
			}
		}
	}
	put("", strings.SplitN(l, " ", 2)[0])
	for _, m := range labelRoleRe.FindAllStringSubmatch(l, -1) {
		put(m[1]+".", m[2])
	}
	return v
}

func (v svals) String() string {
	var t []string
	for k, n := range v {
		t = append(t, fmt.Sprintf("%s=%d", k, n))
	}
	sort.Strings(t)
	return strings.Join(t, " ")
}

// an assertion and what it means
type sasrt struct {
	name  string
	op    string // always transition exists
	code  string // returned expression
	state func(s svals) bool
	trans func(s, t svals) bool
}

func (a *sasrt) ast() *ast.Invariant {
	inv := &ast.Invariant{Name: a.name, TemporalOperators: []string{a.op}, SourceInfo: mksi(), Block: mkb(mkA, mkret(a.code))}
	if a.op == "transition" {
		inv.Params = []*ast.Parameter{{Name: "before"}, {Name: "after"}}
	}
	return inv
}

// sgenAsrt: a random assertion over the variables of the state.
func sgenAsrt(r *rand.Rand, i int, hasRole bool, ops ...string) *sasrt {
	a := &sasrt{name: fmt.Sprintf("Inv%d", i), op: ops[r.Intn(len(ops))]}
	names := []string{"a", "b"}
	code := map[string]string{"a": "a", "b": "b"}
	if hasRole {
		names = append(names, "R#0.u")
		code["R#0.u"] = "r0.u"
	}
	x, y := names[r.Intn(len(names))], names[r.Intn(len(names))]
	i1, i2 := 1+r.Intn(2), r.Intn(3)
	m := 2 + r.Intn(7)
	c := r.Intn(m)
	mod := func(n int) int { return ((n % m) + m) % m }
	if a.op == "transition" {
		// stutter invariant: equal values pass
		switch r.Intn(6) {
		case 4:
			a.code = fmt.Sprintf("before.%s == after.%s or before.%s + before.%s != %d", code[x], code[x], code[x], code[y], c)
			a.trans = func(s, t svals) bool { return s[x] == t[x] || s[x]+s[y] != c }
		case 5:
			a.code = fmt.Sprintf("after.%s == before.%s or (after.%s - before.%s) %% %d != %d", code[x], code[x], code[y], code[x], m, c)
			a.trans = func(s, t svals) bool { return s[x] == t[x] || mod(t[y]-s[x]) != c }
		case 0:
			a.code = fmt.Sprintf("after.%s == before.%s or after.%s %% %d != %d", code[x], code[x], code[x], m, c)
			a.trans = func(s, t svals) bool { return s[x] == t[x] || mod(t[x]) != c }
		case 1:
			a.code = fmt.Sprintf("after.%s >= before.%s - %d", code[x], code[x], i2)
			a.trans = func(s, t svals) bool { return t[x] >= s[x]-i2 }
		case 2:
			a.code = fmt.Sprintf("not (before.%s != after.%s and before.%s == %d and after.%s == %d)", code[x], code[x], code[x], i2, code[y], i1)
			a.trans = func(s, t svals) bool { return !(s[x] != t[x] && s[x] == i2 && t[y] == i1) }
		case 3:
			a.code = fmt.Sprintf("before.%s == after.%s or before.%s == after.%s", code[x], code[x], code[y], code[y])
			a.trans = func(s, t svals) bool { return s[x] == t[x] || s[y] == t[y] }
		}
		return a
	}
	eq := "!="
	if a.op == "exists" {
		eq = "=="
	}
	switch r.Intn(3) {
	case 0:
		a.code = fmt.Sprintf("(%s * %d + %s * %d) %% %d %s %d", code[x], i1, code[y], i2, m, eq, c)
		a.state = func(s svals) bool { return (mod(s[x]*i1+s[y]*i2) == c) == (a.op == "exists") }
	case 1:
		a.code = fmt.Sprintf("not (%s == %d and %s == %d)", code[x], i1, code[y], i2)
		a.state = func(s svals) bool { return !(s[x] == i1 && s[y] == i2) }
		if a.op == "exists" {
			a.code = a.code[4:]
			f := a.state
			a.state = func(s svals) bool { return !f(s) }
		}
	case 2:
		k := 1 + r.Intn(5)
		a.code = fmt.Sprintf("%s + %s < %d", code[x], code[y], k)
		a.state = func(s svals) bool { return s[x]+s[y] < k }
		if a.op == "exists" {
			a.code = "not (" + a.code + ")"
			f := a.state
			a.state = func(s svals) bool { return !f(s) }
		}
	}
	return a
}

// sref: what the reference says about the assertions.
type sref struct {
	l        *lts
	vals     []svals
	always   map[string]map[int]bool // violated -> states
	trans    map[string]map[[2]string]bool
	unmet    map[string]bool
	dead     map[int]bool
	violated map[string]bool
}

func sjudge(l *lts, asr []*sasrt) *sref {
	s := &sref{l: l, always: map[string]map[int]bool{}, trans: map[string]map[[2]string]bool{}, unmet: map[string]bool{}, dead: map[int]bool{}, violated: map[string]bool{}}
	for i, n := range l.nodes {
		s.vals = append(s.vals, labelVals(n.label))
		live := false
		for _, e := range n.out {
			live = live || !strings.HasPrefix(e.act, "crash")
		}
		if !live {
			s.dead[i] = true
		}
	}
	for _, a := range asr {
		switch a.op {
		case "always":
			for i := range l.nodes {
				if !a.state(s.vals[i]) {
					if s.always[a.name] == nil {
						s.always[a.name] = map[int]bool{}
					}
					s.always[a.name][i] = true
					s.violated[a.name] = true
				}
			}
		case "exists":
			s.unmet[a.name] = true
			for i := range l.nodes {
				if a.state(s.vals[i]) {
					delete(s.unmet, a.name)
				}
			}
		case "transition":
			for i, n := range l.nodes {
				for _, e := range n.out {
					if strings.HasPrefix(e.act, "crash") {
						continue
					}
					if !a.trans(s.vals[i], s.vals[e.to]) {
						if s.trans[a.name] == nil {
							s.trans[a.name] = map[[2]string]bool{}
						}
						s.trans[a.name][[2]string{s.vals[i].String(), s.vals[e.to].String()}] = true
						s.violated[a.name] = true
					}
				}
			}
		}
	}
	return s
}

type tstep struct {
	name string
	vals svals
}

var roleLineRe = regexp.MustCompile(`(?m)^([A-Za-z0-9]+#\d+): (.*)$`)
var fieldRe = regexp.MustCompile(`(\w+) = (-?\d+)`)

// traceOf reads the trace the tool printed.
func traceOf(out string) []tstep {
	i := strings.Index(out, "------\n")
	if i < 0 {
		return nil
	}
	var l []tstep
	for _, part := range strings.Split(out[i:], "------\n") {
		nm := strings.SplitN(part, "\n", 2)
		if len(nm) < 2 || !strings.HasPrefix(nm[1], "--\nstate: ") {
			continue
		}
		st := tstep{name: nm[0], vals: svals{}}
		var js map[string]interface{}
		if err := json.Unmarshal([]byte(strings.SplitN(nm[1][len("--\nstate: "):], "\n", 2)[0]), &js); err == nil {
			for k, v := range js {
				if f, ok := v.(float64); ok {
					st.vals[k] = int(f)
				}
			}
		}
		for _, m := range roleLineRe.FindAllStringSubmatch(nm[1], -1) {
			for _, f := range fieldRe.FindAllStringSubmatch(m[2], -1) {
				n, _ := strconv.Atoi(f[2])
				st.vals[m[1]+"."+f[1]] = n
			}
		}
		l = append(l, st)
	}
	return l
}

// groups: one entry per step from yield point to yield point.
func groups(l []tstep) []tstep {
	var g []tstep
	for i, s := range l {
		starts := i == 0 || strings.HasPrefix(s.name, "thread-") || strings.HasPrefix(s.name, "channel-") || strings.HasPrefix(s.name, "crash") || !strings.Contains(s.name, ":") && s.name != "checkpoint" && s.name != ""
		if i == 1 && strings.EqualFold(s.name, "Init") {
			starts = false
		}
		if starts {
			g = append(g, s)
		} else {
			g[len(g)-1].vals = s.vals
		}
	}
	return g
}

func sub(a, b svals) bool {
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// closure under thread steps that change nothing
func (s *sref) closure(in map[int]bool) map[int]bool {
	var st []int
	for i := range in {
		st = append(st, i)
	}
	for len(st) > 0 {
		i := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range s.l.nodes[i].out {
			if e.act == "" && s.l.nodes[e.to].label == s.l.nodes[i].label && !in[e.to] {
				in[e.to] = true
				st = append(st, e.to)
			}
		}
	}
	return in
}

func (s *sref) steps(cur map[int]bool) string {
	m := map[string]bool{}
	for i := range cur {
		for _, e := range s.l.nodes[i].out {
			m[e.act+" {"+s.vals[e.to].String()+"}"] = true
		}
	}
	return fmt.Sprint(keysOfB(m))
}

// follow: the states of the reference the trace may end in; "" or what is wrong with the trace.
func (s *sref) follow(tr []tstep) (map[int]bool, [2]string, string) {
	var cur map[int]bool
	hist := ""
	var last [2]string
	for gi, g := range groups(tr) {
		next := map[int]bool{}
		if gi == 0 {
			for _, i := range s.l.init {
				if sub(s.vals[i], g.vals) {
					next[i] = true
				}
			}
		} else {
			act := g.name
			if strings.HasPrefix(act, "thread-") {
				act = ""
			}
			for i := range cur {
				for _, e := range s.l.nodes[i].out {
					if e.act == act && sub(s.vals[e.to], g.vals) {
						next[e.to] = true
						last = [2]string{s.vals[i].String(), s.vals[e.to].String()}
					}
				}
				// a thread step that changes nothing may not be a step of its own
				if act == "" && sub(s.vals[i], g.vals) {
					next[i] = true
				}
			}
		}
		hist += fmt.Sprintf("; %s {%s}", g.name, g.vals)
		if len(next) == 0 {
			return nil, last, "the printed trace is not an execution of the program: it does not allow the last step of [" + hist[2:] + "], only " + s.steps(cur)
		}
		cur = s.closure(next)
	}
	if cur == nil {
		return nil, last, "no trace was printed"
	}
	return cur, last, ""
}

var failInvRe = regexp.MustCompile(`FAILED: Model checker failed\. (Transition )?Invariant: *(\S+)`)

// scheck compares the tool's output with the reference.
func scheck(s *sref, o *cliOut, asr []*sasrt) string {
	v := o.verdict()
	if o.timedOut || strings.Contains(v, "panic:") || v == "" {
		return "the tool gave no verdict: " + v + " " + tail(o.out, 300)
	}
	// a search that stops at the first problem may meet a deadlock before a violation
	if len(s.violated) > 0 && !(len(s.dead) > 0 && strings.Contains(v, "DEADLOCK detected (early)")) {
		m := failInvRe.FindStringSubmatch(v)
		if m == nil {
			return fmt.Sprintf("the assertions %v can be violated, the tool says %q", keysOfB(s.violated), v)
		}
		name := m[2]
		if !s.violated[name] {
			return fmt.Sprintf("the tool says %q, but that assertion always holds", v)
		}
		cur, last, msg := s.follow(traceOf(o.out))
		if msg != "" {
			return fmt.Sprintf("%q: %s", v, msg)
		}
		if m[1] == "" {
			for i := range cur {
				if s.always[name][i] {
					return ""
				}
			}
			return fmt.Sprintf("%q: the printed trace ends in a state where it holds", v)
		}
		if len(groups(traceOf(o.out))) > 1 && len(cur) == 1 && !s.trans[name][last] {
			// several states of the reference may share their values: look at every last step
			for i, n := range s.l.nodes {
				for _, e := range n.out {
					if cur[e.to] && s.trans[name][[2]string{s.vals[i].String(), s.vals[e.to].String()}] {
						return ""
					}
				}
			}
			return fmt.Sprintf("%q: the last step of the printed trace does not violate it", v)
		}
		return ""
	}
	if strings.Contains(v, "Invariant:") && !strings.Contains(v, "Expected states") {
		return fmt.Sprintf("no execution violates an assertion, the tool says %q", v)
	}
	if len(s.dead) > 0 {
		if !strings.Contains(v, "DEADLOCK detected") {
			return fmt.Sprintf("a deadlock is possible, the tool says %q", v)
		}
		cur, _, msg := s.follow(traceOf(o.out))
		if msg != "" {
			return fmt.Sprintf("%q: %s", v, msg)
		}
		for i := range cur {
			if s.dead[i] {
				return ""
			}
		}
		return fmt.Sprintf("%q: the printed trace does not end in a deadlock", v)
	}
	if strings.Contains(v, "DEADLOCK") {
		return fmt.Sprintf("no deadlock is possible, the tool says %q", v)
	}
	if len(s.unmet) > 0 {
		for _, a := range asr {
			if a.op == "exists" && strings.Contains(v, ": "+a.name) != s.unmet[a.name] {
				return fmt.Sprintf("the exists assertion %s has no witness: %v, the tool says %q", a.name, s.unmet[a.name], v)
			}
		}
		if !o.failed() {
			return fmt.Sprintf("exists assertions have no witness, the tool says %q", v)
		}
		return ""
	}
	if !o.passed() {
		return fmt.Sprintf("every assertion holds and no deadlock is possible, the tool says %q", v)
	}
	return ""
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func keysOfB(m map[string]bool) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

type sjob struct {
	id   string
	p    *prog
	asr  []*sasrt
	ref  *sref
	out  []*cliOut
	mode [][]string
	text string
}

func sgenJob(seed int64, roles bool, limit int) *sjob {
	rng := rand.New(rand.NewSource(seed))
	p := genProg(rng, roles)
	l, ok := refOf(p, limit)
	if !ok || len(l.nodes) == 0 {
		return nil
	}
	j := &sjob{id: fmt.Sprintf("prog%d", seed), p: p}
	n := rng.Intn(4)
	ops := []string{"always", "always", "transition", "transition", "exists"}
	if rng.Intn(4) == 0 {
		n, ops = 2+rng.Intn(4), []string{"exists"}
	}
	for i := 0; i < n; i++ {
		j.asr = append(j.asr, sgenAsrt(rng, i, roles, ops...))
	}
	j.ref = sjudge(l, j.asr)
	j.text = p.text()
	for _, a := range j.asr {
		j.text += fmt.Sprintf("\n%s assertion %s: return %s", a.op, a.name, a.code)
	}
	return j
}

func (j *sjob) file() *ast.File {
	f := j.p.file()
	for _, a := range j.asr {
		f.Invariants = append(f.Invariants, a.ast())
	}
	return f
}

var smodes = [][]string{{"-exploration_strategy", "bfs"}, {"-exploration_strategy", "dfs"}, {"-exploration_strategy", "random"}, {"-experimental_processed_queue"}}
