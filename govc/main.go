package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func loadProgram(repo, modfile string, patterns []string) (*ssa.Program, map[string]*ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile | packages.NeedModule,
		Dir: repo, BuildFlags: []string{"-modfile=" + modfile}}
	if modfile == "" {
		cfg.BuildFlags = nil
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
		repoPkgs[p.PkgPath] = true
		pkgByPath[p.PkgPath] = p.Types
		allPkgs[p.Types.Name()] = p.Types
		m := map[string]*types.Package{}
		for _, f := range p.Syntax {
			for _, im := range f.Imports {
				pn := p.TypesInfo.PkgNameOf(im)
				if pn != nil {
					m[pn.Name()] = pn.Imported()
				}
			}
		}
		importsOf[p.PkgPath] = m
	}
	for _, p := range pkgs {
		for _, q := range p.Types.Imports() {
			if allPkgs[q.Name()] == nil {
				allPkgs[q.Name()] = q
			}
		}
	}
	prog, ps := ssautil.Packages(pkgs, ssa.NaiveForm|ssa.InstantiateGenerics)
	prog.Build()
	out := map[string]*ssa.Package{}
	for _, p := range ps {
		if p != nil {
			out[p.Pkg.Path()] = p
		}
	}
	return prog, out, nil
}

// findFn indexes every function of the loaded packages by contract key.
func indexFns(prog *ssa.Program) map[string]*ssa.Function {
	m := map[string]*ssa.Function{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || f.Synthetic != "" && f.Origin() == nil && !strings.Contains(f.Synthetic, "package initializer") {
			return
		}
		if f.Origin() != nil {
			return
		}
		k, _ := contractKey(f)
		if _, ok := m[k]; ok {
			return
		}
		m[k] = f
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range prog.AllPackages() {
		if !repoPkgs[p.Pkg.Path()] {
			continue
		}
		for _, mem := range p.Members {
			switch t := mem.(type) {
			case *ssa.Function:
				add(t)
			case *ssa.Type:
				n, ok := t.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	return m
}

type Report struct {
	Funcs    []*FuncOut     `json:"functions"`
	Lemmas   []*OblOut      `json:"lemmas"`
	Solvers  map[string]int `json:"solvers"`
	SolverMs int64          `json:"solver_ms"`
	Trusted  []string       `json:"trusted"`
	Axioms   []string       `json:"axioms"`
	WallMs   int64          `json:"wall_ms"`
	LoadErr  string         `json:"load_error,omitempty"`
}
type FuncOut struct {
	Name    string    `json:"name"`
	Pos     string    `json:"pos"`
	Props   []string  `json:"props"`
	OK      bool      `json:"ok"`
	Error   string    `json:"error,omitempty"`
	Obls    []*OblOut `json:"obligations"`
	Notes   []string  `json:"notes,omitempty"`
	Used    []string  `json:"contracts_used,omitempty"`
	Inlined []string  `json:"inlined,omitempty"`
	Dropped []string  `json:"dropped_invariants,omitempty"`
	Ms      int64     `json:"ms"`
}
type OblOut struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Status string `json:"status"`
	Solver string `json:"solver"`
	Ms     int64  `json:"ms"`
	Text   string `json:"text,omitempty"`
	Pos    string `json:"pos,omitempty"`
	Detail string `json:"detail,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	modfile := flag.String("modfile", "", "")
	dir := flag.String("contracts", "/verif/contracts", "")
	prop := flag.String("prop", "", "only functions of this property")
	fn := flag.String("func", "", "only functions whose name contains this")
	out := flag.String("o", "", "JSON report")
	verbose := flag.Bool("v", false, "")
	dump := flag.String("dump", "", "directory for SMT queries")
	timeout := flag.Int("timeout", 10, "")
	jobs := flag.Int("jobs", 8, "")
	ssaDump := flag.String("ssa", "", "print the SSA of functions whose key contains this")
	list := flag.Bool("list", false, "")
	pats := flag.String("pkgs", "./lib,./modelchecker,.,fizz/proto", "")
	nopool := flag.Bool("nopool", false, "")
	deadline := flag.Int("deadline", 0, "seconds after which failing obligations get no long search")
	flag.Parse()
	t0 := time.Now()
	rep := &Report{Solvers: map[string]int{}}
	specs := func() (s *Specs) {
		defer func() {
			if r := recover(); r != nil {
				if se, ok := r.(specErr); ok {
					fmt.Fprintln(os.Stderr, "contract error:", se.msg)
					os.Exit(3)
				}
				panic(r)
			}
		}()
		return parseSpecDir(*dir, *prop)
	}()
	prog, _, err := loadProgram(*repo, *modfile, strings.Split(*pats, ","))
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		rep.LoadErr = err.Error()
		writeRep(*out, rep)
		os.Exit(2)
	}
	fns := indexFns(prog)
	if *ssaDump != "" {
		for k, f := range fns {
			if strings.Contains(k, *ssaDump) {
				fmt.Println("KEY", k)
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	if *list {
		var ks []string
		for k := range fns {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k)
		}
		return
	}
	if *dump != "" {
		os.MkdirAll(*dump, 0755)
	}
	opt := Options{Verbose: *verbose, Timeout: *timeout, Jobs: *jobs, Dump: *dump, NoPool: *nopool, Deadline: *deadline}
	usedExt := map[string]bool{}
	okAll := true
	inProp := func(ps []string) bool {
		if *prop == "" {
			return true
		}
		for _, p := range ps {
			if p == *prop {
				return true
			}
		}
		return false
	}
	var work []string
	queued := map[string]bool{}
	for _, k := range specs.Order {
		con := specs.Contracts[k]
		if con.Extern || !inProp(con.Props) || *fn != "" && !strings.Contains(shortName(con), *fn) {
			continue
		}
		work = append(work, k)
		queued[k] = true
	}
	for wi := 0; wi < len(work); wi++ {
		k := work[wi]
		con := specs.Contracts[k]
		f := fns[strings.TrimSuffix(k, con.View)]
		fo := &FuncOut{Name: shortName(con), Props: con.Props}
		rep.Funcs = append(rep.Funcs, fo)
		if f == nil {
			if con.Helper {
				fo.OK = true
				fo.Notes = []string{"helper not present in this tree: its callers are verified against whatever replaces it"}
			} else {
				fo.Error = "function under contract not found in the current source"
				okAll = false
			}
			fmt.Printf("%-60s MISSING\n", fo.Name)
			continue
		}
		if con.Fallback && len(f.Blocks) == 0 {
			continue
		}
		r := verifyFn(prog, specs, con, f, opt)
		fo.OK, fo.Error, fo.Notes, fo.Used, fo.Inlined, fo.Dropped, fo.Pos, fo.Ms = r.ok(), r.Error, r.Notes, r.Used, r.Inlined, r.Dropped, r.Pos, r.VcMs
		np := 0
		for _, o := range r.Obls {
			oo := &OblOut{Name: o.Name, Kind: o.Kind, Status: o.Status, Solver: o.Solver, Ms: o.Ms, Pos: o.Pos, Detail: o.Detail}
			if o.Status != "proved" {
				oo.Text = o.Text
			}
			fo.Obls = append(fo.Obls, oo)
			if o.Status == "proved" {
				np++
				rep.Solvers[o.Solver]++
			}
			rep.SolverMs += o.Ms
		}
		for _, u := range r.Used {
			c := specs.Contracts[u]
			if c == nil {
				continue
			}
			if c.Extern {
				usedExt[u] = true
			} else if !queued[u] && *fn == "" {
				// a callee's contract is only as good as the callee's own proof
				queued[u] = true
				work = append(work, u)
			}
		}
		if !fo.OK {
			okAll = false
		}
		st := "ok"
		if !fo.OK {
			st = "FAIL"
		}
		fmt.Printf("%-60s %-4s %d/%d obligations %dms %s\n", fo.Name, st, np, len(r.Obls), r.VcMs, r.Error)
		if !fo.OK || *verbose {
			for _, o := range r.Obls {
				if o.Status != "proved" && o.Status != "covered" || *verbose {
					fmt.Printf("   %-8s %s  [%s] %s %s (%dms) %s\n", o.Status, o.Name, o.Text, o.Pos, o.Solver, o.Ms, o.Detail)
				}
			}
			for _, d := range r.Dropped {
				fmt.Println("   dropped:", d)
			}
		}
		if *verbose {
			for _, n := range r.Notes {
				fmt.Println("   note:", n)
			}
		}
	}
	// lemmas
	for _, a := range specs.Axioms {
		if !a.Lemma || !inProp(a.Props) {
			continue
		}
		oo := proveLemma(specs, a, opt)
		rep.Lemmas = append(rep.Lemmas, oo)
		if oo.Status != "proved" {
			okAll = false
		}
		fmt.Printf("lemma %-54s %s\n", a.Name, oo.Status)
	}
	for _, a := range specs.Axioms {
		if !a.Lemma {
			rep.Axioms = append(rep.Axioms, a.Name+": "+a.Text)
		}
	}
	for _, k := range keys(usedExt) {
		c := specs.Contracts[k]
		var es []string
		for _, e := range c.Ensures {
			es = append(es, e.Text)
		}
		rep.Trusted = append(rep.Trusted, k+" ensures "+strings.Join(es, "; "))
	}
	rep.WallMs = time.Since(t0).Milliseconds()
	writeRep(*out, rep)
	if !okAll {
		os.Exit(1)
	}
}

func proveLemma(specs *Specs, a *AxiomDecl, opt Options) *OblOut {
	C = newCtx()
	con := &Contract{Pkg: a.Pkg, Key: "lemma " + a.Name}
	x := &Exec{specs: specs, con: con, notes: map[string]bool{}, used: map[string]bool{}}
	st := &State{cells: map[cellKey]Value{}, heaps: map[string]*Term{}}
	st.alloc = Const("alloc0", SInt)
	env := &Env{x: x, cur: st, old: st, pkg: pkgByPath[a.Pkg]}
	for _, b := range specs.Axioms {
		if b == a {
			break
		}
		if b.Lemma && !contains(a.Needs, b.Name) {
			continue
		}
		C.axioms = append(C.axioms, env.evalBool(b.Ex))
	}
	g := env.evalBool(a.Ex)
	o := &Obligation{Name: a.Name, Kind: "lemma", Guard: True(), Goal: g, Func: "lemma"}
	o.query = smtQuery(nil, Not(g))
	solveOne(o, opt)
	return &OblOut{Name: a.Name, Kind: "lemma", Status: o.Status, Solver: o.Solver, Ms: o.Ms, Text: a.Text, Detail: o.Detail}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func writeRep(fn string, r *Report) {
	if fn == "" {
		return
	}
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(fn, b, 0644)
}
