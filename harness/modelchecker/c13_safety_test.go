package modelchecker

import (
	ast "fizz/proto"
	"fmt"
	"strings"
	"testing"
)

// C13: verdicts and error traces of the command line tool, against the reference interpreter.

var _ = usesCLI

func TestVerif_C13Verdicts(t *testing.T) {
	r := vstart(t, "verdicts", "for generated programs with generated always, transition and exists assertions, the command line tool fails exactly when the reference interpreter finds a violation, a deadlock or a missing witness; it names an assertion that is violated; and the trace it prints is an execution of the program that ends in the violation")
	defer r.end()
	n := 600
	if r.thorough {
		n = 6000
	}
	for r.n < n && r.nfail < 12 {
		var jobs []*sjob
		for len(jobs) < 64 {
			if j := sgenJob(r.rng.Int63(), r.rng.Intn(3) == 0, 250); j != nil {
				j.mode = [][]string{smodes[r.rng.Intn(len(smodes))]}
				jobs = append(jobs, j)
			}
		}
		cliPar(len(jobs), func(i int) {
			for _, m := range jobs[i].mode {
				jobs[i].out = append(jobs[i].out, cliRun(jobs[i].file(), jobs[i].p.cliYaml(""), false, m...))
			}
		})
		for _, j := range jobs {
			for k, o := range j.out {
				r.check(j.id+"/"+strings.TrimPrefix(j.mode[k][len(j.mode[k])-1], "-"), j.text, func() string { return scheck(j.ref, o, j.asr) })
			}
		}
	}
}

// The assertions without witness, for nodes with any witness flags.
func TestVerif_C13Witness(t *testing.T) {
	r := vstart(t, "witness", "CheckSimpleExistsWitness returns exactly the exists assertions that no yield point is a witness for")
	defer r.end()
	n := 3000
	if r.thorough {
		n = 60000
	}
	for r.n < n && r.nfail < 12 {
		f := &ast.File{}
		ni := 1 + r.rng.Intn(6)
		for i := 0; i < ni; i++ {
			ops := [][]string{{"exists"}, {"exists"}, {"exists"}, {"always"}, {"transition"}}[r.rng.Intn(5)]
			f.Invariants = append(f.Invariants, &ast.Invariant{Name: fmt.Sprintf("I%d", i), TemporalOperators: ops, Block: &ast.Block{Flow: ast.Flow_FLOW_ATOMIC}})
		}
		dens := 1 + r.rng.Intn(6)
		in := ""
		want := map[int]bool{}
		for i, v := range f.Invariants {
			if v.TemporalOperators[0] == "exists" {
				want[i] = true
			}
			in += v.TemporalOperators[0] + " "
		}
		var nodes []*Node
		for k := 1 + r.rng.Intn(5); k > 0; k-- {
			p := NewProcess("", []*ast.File{f}, nil)
			p.Name = []string{"yield", "yield", "crash", "init", "A", "Stmt:1"}[r.rng.Intn(6)]
			p.IsYield = r.rng.Intn(6) == 0
			in += fmt.Sprintf("| %s %v", p.Name, p.IsYield)
			for i := range p.Witness[0] {
				p.Witness[0][i] = r.rng.Intn(dens) == 0
				in += map[bool]string{true: " 1", false: " 0"}[p.Witness[0][i]]
				if p.Witness[0][i] && (p.IsYield || p.Name == "yield" || p.Name == "crash" || p.Name == "init") {
					delete(want, i)
				}
			}
			nodes = append(nodes, &Node{Process: p})
		}
		r.check(in, in, func() string {
			got := map[int]bool{}
			for _, p := range CheckSimpleExistsWitness(nodes) {
				if p.FileIndex != 0 || got[p.InvariantIndex] {
					return fmt.Sprintf("position %v is wrong or twice", *p)
				}
				got[p.InvariantIndex] = true
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("without witness: %v, reported: %v", want, got)
			}
			return ""
		})
	}
}
