package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type HarnessJob struct {
	Name     string         `json:"name"` // pkgpath.Func
	Label    string         `json:"label"`
	Params   map[string]int `json:"params"`
	TimeoutS float64        `json:"timeout_s"`
	MaxPaths int            `json:"max_paths"`
	MaxSteps int64          `json:"max_steps"`
	MaxViol  int            `json:"max_viol"`
	Workers  int            `json:"workers"`
	Finding  any            `json:"finding"`
}

type Job struct {
	Dir       string            `json:"dir"`
	Modfile   string            `json:"modfile"`
	Overlay   map[string]string `json:"overlay"`
	Patterns  []string          `json:"patterns"`
	Tags      string            `json:"tags"`
	Harnesses []HarnessJob      `json:"harnesses"`
	BudgetS   float64           `json:"budget_s"`
	Out       string            `json:"out"`
}

type HarnessOut struct {
	Name       string         `json:"name"`
	Label      string         `json:"label"`
	Params     map[string]int `json:"params"`
	Error      string         `json:"error,omitempty"`
	Violations []Violation    `json:"violations"`
	Witnesses  [][]Input      `json:"witnesses"`
	Stats      Stats          `json:"stats"`
}

type Out struct {
	LoadErrors []string     `json:"load_errors"`
	LoadS      float64      `json:"load_s"`
	Harnesses  []HarnessOut `json:"harnesses"`
}

func main() {
	job := flag.String("job", "", "job file")
	verbose := flag.Bool("v", false, "")
	only := flag.String("only", "", "run only harnesses whose name contains this")
	flag.Parse()
	debug.SetGCPercent(200)
	var j Job
	b, err := os.ReadFile(*job)
	if err == nil {
		err = json.Unmarshal(b, &j)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "symgo:", err)
		os.Exit(2)
	}
	t0 := time.Now()
	var out Out
	write := func() {
		b, _ := json.MarshalIndent(out, "", " ")
		if j.Out != "" {
			os.WriteFile(j.Out, b, 0o644)
		} else {
			os.Stdout.Write(b)
		}
	}
	ov := map[string][]byte{}
	for p, src := range j.Overlay {
		c, err := os.ReadFile(src)
		if err != nil {
			fmt.Fprintln(os.Stderr, "symgo:", err)
			os.Exit(2)
		}
		ov[p] = c
	}
	flags := []string{}
	if j.Modfile != "" {
		flags = append(flags, "-modfile="+j.Modfile)
	}
	if j.Tags != "" {
		flags = append(flags, "-tags="+j.Tags)
	}
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
		packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: j.Dir, Overlay: ov, BuildFlags: flags, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, j.Patterns...)
	if err != nil {
		out.LoadErrors = append(out.LoadErrors, err.Error())
		write()
		return
	}
	bad := map[string]bool{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			out.LoadErrors = append(out.LoadErrors, p.PkgPath+": "+e.Error())
			bad[p.PkgPath] = true
		}
	})
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	out.LoadS = time.Since(t0).Seconds()
	P := &Program{prog: prog, built: map[*ssa.Package]bool{}, repo: j.Dir}
	if *verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs, %d errors %v\n", out.LoadS, len(out.LoadErrors), out.LoadErrors)
	}
	budgetEnd := t0.Add(time.Duration(j.BudgetS * float64(time.Second)))
	for hi, h := range j.Harnesses {
		if *only != "" && !strings.Contains(h.Name+"/"+h.Label, *only) {
			continue
		}
		i := strings.LastIndexByte(h.Name, '.')
		ho := HarnessOut{Name: h.Name, Label: h.Label, Params: h.Params}
		pk := prog.ImportedPackage(h.Name[:i])
		var fn *ssa.Function
		if pk != nil {
			P.buildPkg(pk)
			fn = pk.Func(h.Name[i+1:])
		}
		if fn == nil || bad[h.Name[:i]] {
			ho.Error = "harness not loaded"
			out.Harnesses = append(out.Harnesses, ho)
			continue
		}
		to := h.TimeoutS
		if to == 0 {
			to = 60
		}
		dl := time.Now().Add(time.Duration(to * float64(time.Second)))
		if j.BudgetS > 0 {
			// share what is left of the budget between the remaining harnesses
			left := time.Until(budgetEnd)
			share := left / time.Duration(len(j.Harnesses)-hi)
			if share < left/2 {
				share = left / 2
			}
			if d := time.Now().Add(share); d.Before(dl) {
				dl = d
			}
		}
		wk := h.Workers
		if wk == 0 {
			wk = runtime.NumCPU()
		}
		ms := h.MaxSteps
		if ms == 0 {
			ms = 40_000_000
		}
		mv := h.MaxViol
		if mv == 0 {
			mv = 6
		}
		seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		ex := &Explorer{p: P, seed: seed, harness: fn, name: h.Name, finding: h.Finding != nil, deadline: dl, maxPaths: h.MaxPaths, maxViol: mv, params: h.Params, maxSteps: ms, verbose: os.Getenv("SYMGO_PATHS") != ""}
		ex.Run(wk)
		ho.Violations = ex.viols
		if len(ex.viols) > 0 && h.Finding == nil && j.BudgetS > 0 {
			// there is something to report: not much more is spent on the rest
			if e := time.Now().Add(90 * time.Second); e.Before(budgetEnd) {
				budgetEnd = e
			}
		}
		ho.Stats = ex.st
		ho.Witnesses = ex.wit
		if *verbose {
			fmt.Fprintf(os.Stderr, "%s %s: paths=%d infeasible=%d unsupported=%d limit=%d unknown=%d asserts=%d/%dq queries=%d solver=%.1fs wall=%.1fs exhausted=%v viol=%d steps=%d covers=%v\n", h.Name, h.Label, ex.st.Paths, ex.st.Infeasible, ex.st.Unsupported, ex.st.Limit, ex.st.Unknown, ex.st.Asserts, ex.st.AssertQueries, ex.st.Queries, ex.st.SolverS, ex.st.WallS, ex.st.Exhausted, len(ex.viols), ex.st.Steps, ex.st.Covers)
			for r, n := range ex.st.Reasons {
				fmt.Fprintf(os.Stderr, "   %dx %s\n", n, r)
			}
			for _, v := range ex.viols {
				fmt.Fprintf(os.Stderr, "   VIOL %s %s\n", v.Kind, v.Msg)
				for _, in := range v.Inputs {
					fmt.Fprintf(os.Stderr, "      %s=%d", in.Name, int64(in.Val))
				}
				fmt.Fprintf(os.Stderr, "\n      notes %v\n%s\n", v.Notes, v.Trace)
			}
		}
		out.Harnesses = append(out.Harnesses, ho)
	}
	write()
}
