package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type Options struct {
	Verbose  bool
	NoPool   bool
	Timeout  int // seconds per obligation per solver
	Jobs     int
	Dump     string
	Thorough bool
	Deadline int
}

type solverCmd struct {
	name string
	args func(sec int) []string
}

var solvers = []solverCmd{
	{"z3-5.3", func(s int) []string { return []string{"z3-new", "-smt2", "-in", fmt.Sprintf("-T:%d", s)} }},
	{"z3-5.3/nombqi", func(s int) []string {
		return []string{"z3-new", "-smt2", "-in", fmt.Sprintf("-T:%d", s), "smt.mbqi=false", "smt.auto_config=false"}
	}},
	{"z3-4.8", func(s int) []string { return []string{"z3", "-smt2", "-in", fmt.Sprintf("-T:%d", s)} }},
	{"cvc5", func(s int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000), "--arrays-exp", "--full-saturate-quant", "-"}
	}},
}

func runSolver(parent context.Context, sc solverCmd, q string, sec int) (string, time.Duration) {
	a := sc.args(sec)
	ctx, cancel := context.WithTimeout(parent, time.Duration(sec+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0)
	s := strings.TrimSpace(out.String())
	for _, l := range strings.Split(s, "\n") {
		switch strings.TrimSpace(l) {
		case "sat", "unsat", "unknown":
			return strings.TrimSpace(l), d
		}
		if strings.Contains(l, "error") {
			return "error: " + l, d
		}
	}
	if s == "" || strings.Contains(s, "timeout") {
		return "timeout", d
	}
	return "error: " + s, d
}

var startTime = time.Now()
var dumpN int
var dumpMu sync.Mutex
var slots chan bool
var slotsOnce sync.Once

func solveOne(o *Obligation, opt Options) {
	if o.Goal.Op == "true" && o.Kind != "cover" {
		o.Status, o.Solver = "proved", "simplifier"
		return
	}
	if opt.Dump != "" {
		dumpMu.Lock()
		dumpN++
		fn := filepath.Join(opt.Dump, fmt.Sprintf("%04d_%s.smt2", dumpN, sanitize(o.Func+"_"+o.Name)))
		dumpMu.Unlock()
		os.WriteFile(fn, []byte(o.query), 0644)
	}
	sec := opt.Timeout
	if o.timeout > 0 {
		sec = o.timeout
	}
	if o.Kind == "cover" {
		r, d := runSolver(context.Background(), solvers[0], o.query, 1)
		o.Ms = d.Milliseconds()
		o.Solver = solvers[0].name
		if r == "unsat" {
			o.Status = "vacuous"
		} else {
			o.Status = "covered"
			o.Detail = r
		}
		if strings.HasPrefix(r, "error") {
			o.Status = "vacuous"
			o.Detail = r
		}
		return
	}
	var details []string
	// a short first try, then the portfolio in parallel
	for si := 0; si < 2; si++ {
		r, d := runSolver(context.Background(), solvers[si], o.query, 2)
		o.Ms += d.Milliseconds()
		details = append(details, solvers[si].name+": "+r)
		if r == "unsat" {
			o.Status, o.Solver, o.Detail = "proved", solvers[si].name, ""
			return
		}
		if r == "sat" {
			o.Status, o.Solver, o.Detail = "failed", solvers[si].name, strings.Join(details, "; ")
			return
		}
	}
	if o.Cand != nil && !o.Cand.user {
		o.Status, o.Detail = "unknown", strings.Join(details, "; ")
		return
	}
	if opt.Deadline > 0 && time.Since(startTime) > time.Duration(opt.Deadline)*time.Second {
		o.Status, o.Detail = "unknown", strings.Join(details, "; ")+"; time budget used up"
		return
	}
	type ans struct {
		r  string
		d  time.Duration
		si int
	}
	ch := make(chan ans, len(solvers))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for si := range solvers {
		si := si
		go func() {
			r, d := runSolver(ctx, solvers[si], o.query, sec)
			ch <- ans{r, d, si}
		}()
	}
	for range solvers {
		a := <-ch
		o.Ms += a.d.Milliseconds()
		details = append(details, solvers[a.si].name+": "+a.r)
		if a.r == "unsat" {
			o.Status, o.Solver, o.Detail = "proved", solvers[a.si].name, ""
			return
		}
		if a.r == "sat" {
			o.Status, o.Solver, o.Detail = "failed", solvers[a.si].name, strings.Join(details, "; ")
			return
		}
	}
	o.Status = "unknown"
	o.Detail = strings.Join(details, "; ")
}

func solveAll(os []*Obligation, opt Options) {
	slotsOnce.Do(func() { slots = make(chan bool, opt.Jobs) })
	var wg sync.WaitGroup
	for _, o := range os {
		o := o
		if o.Status != "" && o.Status != "unknown" && o.query == "" {
			continue
		}
		wg.Add(1)
		slots <- true
		go func() {
			defer func() { <-slots; wg.Done() }()
			solveOne(o, opt)
		}()
	}
	wg.Wait()
}
