package modelchecker

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"testing"
)

// C12: the result does not depend on how the state space is searched.

var _ = usesCLI

var uniqueRe = regexp.MustCompile(`Unique states: (\d+)`)

var searchModes = [][]string{
	{"-exploration_strategy", "bfs"}, {"-exploration_strategy", "dfs"}, {"-exploration_strategy", "random"},
	{"-exploration_strategy", "bfs", "-experimental_processed_queue"}, {"-exploration_strategy", "dfs", "-experimental_processed_queue"}, {"-exploration_strategy", "random", "-experimental_processed_queue"},
	{"-exploration_strategy", "bfs", "-experimental_no_graph"}, {"-exploration_strategy", "dfs", "-experimental_no_graph"}, {"-exploration_strategy", "random", "-experimental_no_graph"},
}

func modeName(m []string) string {
	return strings.TrimPrefix(strings.Join(m[1:], ""), "-experimental_")
}

// searchClass: what kind of result a run has.
func searchClass(o *cliOut) string {
	v := o.verdict()
	switch {
	case o.timedOut:
		return "timeout"
	case strings.Contains(v, "panic"):
		return "panic " + tail(o.out, 300)
	case strings.Contains(v, "DEADLOCK"):
		return "deadlock"
	case strings.Contains(o.out, "Expected states never reached"):
		return "unmet"
	case o.failed():
		return "failed"
	case o.passed():
		return "passed"
	}
	return "no verdict: " + tail(o.out, 300)
}

func uniqueOf(o *cliOut) string {
	m := uniqueRe.FindStringSubmatch(o.out)
	if m == nil {
		return "none"
	}
	return m[1]
}

func TestVerif_C12SameStates(t *testing.T) {
	r := vstart(t, "samestates", "every search strategy, with and without the processed queue and the state graph, counts the same number of states of a generated program, as many as the state graph of the reference search has, and reaches the states of the reference interpreter")
	defer r.end()
	n := 400
	if r.thorough {
		n = 6000
	}
	for r.n < n && r.nfail < 12 {
		var jobs []*sjob
		for len(jobs) < 16 {
			seed := r.rng.Int63()
			p := genProg(rand.New(rand.NewSource(seed)), r.rng.Intn(3) == 0)
			l, ok := refOf(p, 250)
			if !ok || len(l.nodes) == 0 {
				continue
			}
			jobs = append(jobs, &sjob{id: fmt.Sprintf("prog%d", seed), p: p, mode: searchModes, ref: &sref{l: l}})
		}
		cliPar(len(jobs), func(i int) {
			for _, m := range jobs[i].mode {
				jobs[i].out = append(jobs[i].out, cliRun(jobs[i].p.file(), jobs[i].p.cliYaml("deadlock_detection: false\n"), false, m...))
			}
		})
		for _, j := range jobs {
			want := uniqueOf(j.out[0])
			for k, o := range j.out {
				r.check(j.id+"/"+modeName(j.mode[k]), j.p.text(), func() string {
					if c := searchClass(o); c != "passed" {
						return "nothing to find, but the result is " + c
					}
					if g := uniqueOf(o); g != want {
						return fmt.Sprintf("%s states, breadth-first search counts %s", g, want)
					}
					return ""
				})
			}
		}
	}
}

func TestVerif_C12SameVerdict(t *testing.T) {
	r := vstart(t, "sameverdict", "every search strategy, with and without the processed queue and the state graph, reaches the same kind of verdict on a generated program with assertions")
	defer r.end()
	n := 300
	if r.thorough {
		n = 5000
	}
	for r.n < n && r.nfail < 12 {
		var jobs []*sjob
		for len(jobs) < 16 {
			j := sgenJob(r.rng.Int63(), r.rng.Intn(3) == 0, 250)
			if j == nil {
				continue
			}
			j.mode = searchModes
			jobs = append(jobs, j)
		}
		cliPar(len(jobs), func(i int) {
			for _, m := range jobs[i].mode {
				jobs[i].out = append(jobs[i].out, cliRun(jobs[i].file(), jobs[i].p.cliYaml(""), false, m...))
			}
		})
		for _, j := range jobs {
			for k, o := range j.out {
				r.check(j.id+"/"+modeName(j.mode[k]), j.text, func() string {
					c := searchClass(o)
					bad, dead, unmet := len(j.ref.violated) > 0, len(j.ref.dead) > 0, len(j.ref.unmet) > 0
					switch c {
					case "failed":
						if bad {
							return ""
						}
					case "deadlock":
						if dead {
							return ""
						}
					case "unmet":
						if !bad && !dead && unmet {
							return ""
						}
					case "passed":
						if !bad && !dead && !unmet {
							return ""
						}
					}
					return fmt.Sprintf("the result is %s; violations possible: %v, deadlocks possible: %v; missing witnesses: %v", c, bad, dead, unmet)
				})
			}
		}
	}
}

// With limits that bind, breadth-first search reaches a state on the same path in all its variants.
func TestVerif_C12Bounded(t *testing.T) {
	r := vstart(t, "bounded", "breadth-first search with and without the processed queue and the state graph counts the same number of states of a generated program within limits that cut the search short")
	defer r.end()
	n := 150
	if r.thorough {
		n = 3000
	}
	modes := [][]string{searchModes[0], searchModes[3], searchModes[6]}
	for r.n < n && r.nfail < 12 {
		var jobs []*sjob
		for len(jobs) < 16 {
			seed := r.rng.Int63()
			p := genProg(rand.New(rand.NewSource(seed)), r.rng.Intn(3) == 0)
			p.maxA = 1 + r.rng.Intn(4)
			p.maxC = 1 + r.rng.Intn(3)
			if l, ok := refOf(p, 400); !ok || len(l.nodes) == 0 {
				continue
			}
			jobs = append(jobs, &sjob{id: fmt.Sprintf("prog%d/%d/%d", seed, p.maxA, p.maxC), p: p, mode: modes})
		}
		cliPar(len(jobs), func(i int) {
			for _, m := range modes {
				jobs[i].out = append(jobs[i].out, cliRun(jobs[i].p.file(), jobs[i].p.cliYaml("deadlock_detection: false\n"), false, m...))
			}
		})
		for _, j := range jobs {
			want := uniqueOf(j.out[0])
			for k, o := range j.out {
				r.check(j.id+"/"+modeName(j.mode[k]), j.p.text(), func() string {
					if c := searchClass(o); c != "passed" {
						return "nothing to find, but the result is " + c
					}
					if g := uniqueOf(o); g != want {
						return fmt.Sprintf("%s states, breadth-first search counts %s", g, want)
					}
					return ""
				})
			}
		}
	}
}
