package modelchecker

import (
	"bytes"
	"context"
	ast "fizz/proto"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/encoding/protojson"
)

// The command line tool itself, built from the tree under test (VERIF_BIN).

type cliOut struct {
	out      string // standard output and error
	code     int
	dir      string // output directory
	timedOut bool
}

// usesCLI marks the harnesses that need the binary.
func usesCLI() bool { return os.Getenv("VERIF_BIN") != "" }

// cliRun writes f as the parser would, and runs the tool on it in a new directory under the scratch directory.
func cliRun(f *ast.File, yaml string, keep bool, flags ...string) *cliOut {
	dir, err := os.MkdirTemp("", "cli")
	if err != nil {
		panic(err)
	}
	if !keep {
		defer os.RemoveAll(dir)
	}
	f.FrontMatter = &ast.FrontMatter{Yaml: yaml}
	js, err := protojson.Marshal(f)
	if err != nil {
		panic(err)
	}
	in := filepath.Join(dir, "t.json")
	if err := os.WriteFile(in, js, 0644); err != nil {
		panic(err)
	}
	o := &cliOut{dir: filepath.Join(dir, "out")}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_BIN"), append(append([]string{"-test", "-output-dir", o.dir}, flags...), in)...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2GiB")
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	cmd.Dir = dir
	err = cmd.Run()
	o.out = b.String()
	o.timedOut = ctx.Err() != nil
	if err != nil {
		o.code = -1
		if e, ok := err.(*exec.ExitError); ok {
			o.code = e.ExitCode()
		}
	}
	return o
}

var cliVerdictRe = regexp.MustCompile(`(?m)^(FAILED: .*|PASSED: .*|DEADLOCK detected.*|Invariant \d+: .*|Invariant: .*|IsLive: .*|Model checker stopped|panic: .*)$`)

// verdict: the lines that say what the tool found.
func (o *cliOut) verdict() string {
	if o.timedOut {
		return "timeout"
	}
	return strings.Join(cliVerdictRe.FindAllString(o.out, -1), " | ")
}

func (o *cliOut) failed() bool { return strings.Contains(o.verdict(), "FAILED") }
func (o *cliOut) passed() bool { return strings.Contains(o.verdict(), "PASSED") }

// cliPar runs jobs in parallel.
func cliPar(n int, job func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			job(i)
		}(i)
	}
	wg.Wait()
}

// cliYaml: the options of a program as front matter.
func (p *prog) cliYaml(extra string) string {
	c := "false"
	if p.crash {
		c = "true"
	}
	return "options:\n  max_actions: " + itoa(p.maxA) + "\n  max_concurrent_actions: " + itoa(p.maxC) + "\n  crash_on_yield: " + c + "\n" + extra
}

func itoa(i int) string { return strconv.Itoa(i) }
