package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type JobResult struct {
	Fn        string            `json:"fn"`
	Params    map[string]int    `json:"params"`
	Asserts   []*AssertRec      `json:"asserts"`
	Cands     []*Candidate      `json:"candidates"`
	Ends      map[string]int    `json:"ends"`
	Undecided map[string]int    `json:"undecided"`
	Fns       map[string]int    `json:"functions"`
	Models    map[string]int    `json:"models"`
	Notes     map[string]int    `json:"notes"`
	Inputs    []*InputRec       `json:"inputs"`
	Steps     int64             `json:"steps"`
	Merges    int               `json:"merges"`
	Forks     int               `json:"forks"`
	Queries   int               `json:"queries"`
	QSat      int               `json:"q_sat"`
	QUnsat    int               `json:"q_unsat"`
	QUnknown  int               `json:"q_unknown"`
	SolveTime float64           `json:"solver_time"`
	Wall      float64           `json:"wall"`
	Load      float64           `json:"load"`
	Stopped   string            `json:"stopped"`
	Error     string            `json:"error"`
	Terms     int               `json:"terms"`
	Extra     map[string]string `json:"extra,omitempty"`
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// harnessFiles: the harness sources, as they appear inside the repository
func harnessFiles() map[string]string {
	r := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(verifDir(), "harness", "*.go"))
	sort.Strings(fs)
	for _, f := range fs {
		r[filepath.Join(repoDir(), "zzverif", filepath.Base(f))] = f
	}
	return r
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+filepath.Join(verifDir(), "bin", "repo.mod"), "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
}

// modCopy: work on copies of go.mod and go.sum, so that /repo stays as it is
func modCopy() error {
	os.MkdirAll(filepath.Join(verifDir(), "bin"), 0o755)
	for a, b := range map[string]string{"go.mod": "repo.mod", "go.sum": "repo.sum"} {
		d, err := os.ReadFile(filepath.Join(repoDir(), a))
		if err != nil {
			return err
		}
		dst := filepath.Join(verifDir(), "bin", b)
		old, err := os.ReadFile(dst)
		if err == nil && string(old) == string(d) {
			continue
		}
		tmp := fmt.Sprintf("%s.%d", dst, os.Getpid())
		if err := os.WriteFile(tmp, d, 0o644); err != nil {
			return err
		}
		if err := os.Rename(tmp, dst); err != nil {
			return err
		}
	}
	return nil
}

func loadProg() (*ssa.Program, *ssa.Package, error) {
	ov := map[string][]byte{}
	for k, v := range harnessFiles() {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, nil, err
		}
		ov[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir(), Overlay: ov, Env: goEnv()}
	ps, err := packages.Load(cfg, "./zzverif")
	if err != nil {
		return nil, nil, err
	}
	var msg []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			msg = append(msg, e.Error())
		}
	})
	if len(msg) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(msg, "; "))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	return prog, pkgs[0], nil
}

func parseParams(s string) map[string]int {
	m := map[string]int{}
	for _, p := range strings.Split(s, ",") {
		if k, v, ok := strings.Cut(p, "="); ok {
			n, _ := strconv.Atoi(v)
			m[k] = n
		}
	}
	return m
}

func runJob(fn string, params map[string]int, limit, query time.Duration, candFile string) *JobResult {
	t0 := time.Now()
	res := &JobResult{Fn: fn, Params: params}
	prog, pkg, err := loadProg()
	if err != nil {
		res.Error = err.Error()
		return res
	}
	res.Load = time.Since(t0).Seconds()
	f := pkg.Func(fn)
	if f == nil {
		res.Error = "no harness " + fn
		return res
	}
	ex := &Exec{prog: prog, harness: pkg, fns: map[string]int{}, models: map[string]int{}, notes: map[string]int{}, inputs: map[string]*InputRec{}, initing: map[*ssa.Package]int{}, globals: map[*ssa.Global]ObjID{}, choices: map[string]int{}, cutsSeen: map[string]int{}, params: params, ends: map[string]int{}, undecided: map[string]int{}, queryBudget: query, maxIter: 5000}
	ex.candFile = candFile
	ex.deadline = time.Now().Add(limit)
	ex.repoPath = strings.TrimSuffix(pkg.Pkg.Path(), "/zzverif")
	ex.sess = NewSession()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsup); ok {
					ex.undecided["unsupported: "+u.msg]++
					return
				}
				res.Error = fmt.Sprintf("encoder error: %v", r)
				fmt.Fprintf(os.Stderr, "encoder error: %v\n%s\n", r, debug.Stack())
			}
		}()
		w := &World{pc: newPC(), heap: map[ObjID]*Obj{}, own: new(int)}
		outs := ex.run(w, f, nil, nil)
		ex.finish(outs)
	}()
	res.Asserts, res.Cands, res.Ends, res.Undecided = ex.asserts, ex.cands, ex.ends, ex.undecided
	res.Fns = map[string]int{}
	for k, v := range ex.fns {
		res.Fns[k] = v
	}
	res.Models, res.Notes = ex.models, ex.notes
	for _, i := range ex.inputs {
		res.Inputs = append(res.Inputs, i)
	}
	sort.Slice(res.Inputs, func(i, j int) bool { return res.Inputs[i].Name < res.Inputs[j].Name })
	res.Steps, res.Merges, res.Forks, res.Stopped = ex.steps, ex.merges, ex.forks, ex.stopped
	st := ex.sess.st
	res.Queries = st.Queries + ex.oneshots
	res.QSat, res.QUnsat, res.QUnknown = st.Sat, st.Unsat, st.Unknown
	res.SolveTime = (st.Time + ex.oneshotTime).Seconds()
	res.Terms = termCount
	res.Wall = time.Since(t0).Seconds()
	ex.sess.Close()
	return res
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine run|check ...")
		os.Exit(0)
	}
	initIntrinsics()
	switch os.Args[1] {
	case "run":
		fl := flag.NewFlagSet("run", flag.ExitOnError)
		fn := fl.String("fn", "", "")
		params := fl.String("params", "", "")
		out := fl.String("out", "", "")
		limit := fl.Int("limit", 300, "")
		query := fl.Int("query", 120, "")
		fl.Parse(os.Args[2:])
		if err := modCopy(); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		cf := ""
		if *out != "" {
			cf = *out + ".cands"
		}
		r := runJob(*fn, parseParams(*params), time.Duration(*limit)*time.Second, time.Duration(*query)*time.Second, cf)
		b, _ := json.MarshalIndent(r, "", " ")
		if *out != "" {
			os.WriteFile(*out, b, 0o644)
		} else {
			printResult(r)
		}
	case "selfcheck":
		fl := flag.NewFlagSet("selfcheck", flag.ExitOnError)
		seed := fl.Int64("seed", 1, "")
		n := fl.Int("n", 20, "")
		fl.Parse(os.Args[2:])
		os.Exit(selfcheckMain(*seed, *n))
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	}
}

func printResult(r *JobResult) {
	fmt.Printf("%s %v: wall %.1fs load %.1fs steps %d forks %d merges %d terms %d queries %d (%.1fs) stopped=%q error=%q\n", r.Fn, r.Params, r.Wall, r.Load, r.Steps, r.Forks, r.Merges, r.Terms, r.Queries, r.SolveTime, r.Stopped, r.Error)
	for _, a := range r.Asserts {
		fmt.Printf("  assert %-50s %s trivial=%d unsat=%d sat=%d unknown=%d reached=%s max=%.2fs\n", a.Msg, a.Site, a.Trivial, a.Unsat, a.Sat, a.Unknown, a.Reached, a.MaxTime)
	}
	for _, k := range keysOf(r.Ends) {
		fmt.Printf("  end %s: %d\n", k, r.Ends[k])
	}
	for _, k := range keysOf(r.Undecided) {
		fmt.Printf("  UNDECIDED %s: %d\n", k, r.Undecided[k])
	}
	for _, k := range keysOf(r.Notes) {
		fmt.Printf("  note %s: %d\n", k, r.Notes[k])
	}
	for _, c := range r.Cands {
		if c.Kind != "witness" || os.Getenv("SYM_WIT") != "" {
			fmt.Printf("  candidate %s %s %s %v\n", c.Kind, c.Site, c.Msg, c.Vars)
		}
	}
}

var _ = types.Typ
