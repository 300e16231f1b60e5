package main

// The driver: prepares the program under analysis from the current tree of the repository, explores
// the harnesses of a property, replays what it finds against the real code and writes the evidence.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
)

const repoMod = "github.com/openshift-online/ocm-api-metamodel"

var verifDir, repoDir string

type Target struct {
	Kind       string
	Dir        string            // where the go tool runs
	Overlay    map[string]string // virtual path to real path
	EngFlags   []string
	NatFlags   []string
	Prefix     string // import path prefix of the injected packages
	Harness    string // import path of the harness package
	MainPath   string // import path of the native runner
	HarnessDir string
	Scope      func(string) bool
	Artifacts  string
}

func goEnv() []string {
	return []string{"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GOWORK=off", "CGO_ENABLED=0", "GO111MODULE=on", "GOSUMDB=off"}
}

func run(dir string, timeout time.Duration, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), goEnv()...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	if err := cmd.Start(); err != nil {
		return "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return out.String(), err
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		return out.String(), fmt.Errorf("timeout after %v", timeout)
	}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "vse:", err)
		os.Exit(2)
	}
}

type Evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

type harnessInfo struct {
	name  string
	doc   string
	opts  map[string]string
	reach []string
}

var optRe = regexp.MustCompile(`//verif:(\S+)`)
var reachRe = regexp.MustCompile(`nd\.Reach\("([^"]+)"\)`)

type checkState struct {
	pid      string
	tier     string
	seed     int
	scratch  string
	start    time.Time
	ev       Evidence
	stats    Stats
	findings []Finding
	violate  []string
	notes    []string
	inconcl  []string
	known    []knownFinding
	tracesOK int
	traceBad []string
	samples  []interface{}
	harnRep  []map[string]interface{}
	funcs    map[string]bool
	bounds   map[string]int
	models   map[string]bool
	assume   map[string]bool
	knownHit map[string]bool
	loadTime time.Duration
	fatal    string
}

type knownFinding struct{ property, harness, match, text string }

func loadKnown(pid string) []knownFinding {
	data, err := ioutil.ReadFile(filepath.Join(verifDir, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(data), "\n") {
		// finding: property=P01 harness=CheckX match="text" description
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		m := regexp.MustCompile(`property=(\S+) harness=(\S+) match="([^"]*)" (.*)`).FindStringSubmatch(l)
		if m != nil && m[1] == pid {
			out = append(out, knownFinding{m[1], m[2], m[3], m[4]})
		}
	}
	return out
}

func checkMain(pid string, args []string) int {
	exe, _ := os.Executable()
	verifDir = os.Getenv("VERIF_DIR")
	if verifDir == "" {
		verifDir = filepath.Dir(filepath.Dir(exe))
	}
	repoDir = os.Getenv("VERIF_REPO")
	if repoDir == "" {
		repoDir = "/repo"
	}
	only := ""
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	for _, a := range args {
		switch {
		case a == "quick" || a == "thorough":
			tier = a
		case strings.HasPrefix(a, "only="):
			only = a[5:]
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	scratch, err := ioutil.TempDir("", "verif-"+pid+"-")
	must(err)
	defer os.RemoveAll(scratch)
	st := &checkState{pid: pid, tier: tier, seed: seed, scratch: scratch, start: time.Now(),
		known: loadKnown(pid), funcs: map[string]bool{}, bounds: map[string]int{}, models: map[string]bool{},
		assume: map[string]bool{}, knownHit: map[string]bool{}}
	lp := strings.ToLower(pid)
	found := false
	if dirExists(filepath.Join(verifDir, "harness/repo", lp)) {
		found = true
		st.repoTarget(lp, only)
	}
	if dirExists(filepath.Join(verifDir, "harness/gen", lp)) && st.fatal == "" {
		found = true
		st.genTarget(lp, only)
	}
	if !found {
		fmt.Fprintln(os.Stderr, "no harness for", pid)
		return 2
	}
	return st.finish()
}

func dirExists(p string) bool {
	i, err := os.Stat(p)
	return err == nil && i.IsDir()
}

func goFiles(dir string) []string {
	m, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(m)
	return m
}

func (st *checkState) repoTarget(lp, only string) {
	t := &Target{Kind: "repo", Dir: repoDir, Overlay: map[string]string{}, Prefix: repoMod + "/zzverif"}
	hd := filepath.Join(verifDir, "harness/repo", lp)
	t.HarnessDir = hd
	vd := filepath.Join(repoDir, "zzverif")
	for _, d := range []string{"nd", "model", "vfs", "jsonx", "mb", "tmpl"} {
		for _, f := range goFiles(filepath.Join(verifDir, "harness", d)) {
			t.Overlay[filepath.Join(vd, d, filepath.Base(f))] = f
		}
	}
	for _, f := range goFiles(hd) {
		t.Overlay[filepath.Join(vd, lp, filepath.Base(f))] = f
	}
	// In package files: directory names have slashes replaced by double underscores.
	subs, _ := ioutil.ReadDir(hd)
	for _, s := range subs {
		if s.IsDir() {
			for _, f := range goFiles(filepath.Join(hd, s.Name())) {
				t.Overlay[filepath.Join(repoDir, strings.ReplaceAll(s.Name(), "__", "/"), "zz_verif_"+filepath.Base(f))] = f
			}
		}
	}
	t.Harness = t.Prefix + "/" + lp
	t.MainPath = t.Prefix + "/" + lp + "main"
	t.Scope = func(p string) bool {
		return strings.HasPrefix(p, repoMod) && !strings.Contains(p, "/zzverif")
	}
	st.moduleFiles(t, repoDir)
	st.explore(t, filepath.Join(vd, lp+"main", "main.go"), only)
}

// moduleFiles writes copies of the module files, so that the go tool doesn't change the original ones.
func (st *checkState) moduleFiles(t *Target, dir string) {
	mod, err := ioutil.ReadFile(filepath.Join(dir, "go.mod"))
	must(err)
	sum, _ := ioutil.ReadFile(filepath.Join(dir, "go.sum"))
	ed := filepath.Join(st.scratch, "eng-"+t.Kind)
	os.MkdirAll(ed, 0755)
	must(ioutil.WriteFile(filepath.Join(ed, "go.mod"), mod, 0644))
	must(ioutil.WriteFile(filepath.Join(ed, "go.sum"), sum, 0644))
	t.EngFlags = []string{"-modfile=" + filepath.Join(ed, "go.mod"), "-mod=mod"}
	nd := filepath.Join(st.scratch, "nat-"+t.Kind)
	os.MkdirAll(nd, 0755)
	must(ioutil.WriteFile(filepath.Join(nd, "go.mod"), mod, 0644))
	must(ioutil.WriteFile(filepath.Join(nd, "go.sum"), sum, 0644))
	t.NatFlags = []string{"-modfile=" + filepath.Join(nd, "go.mod"), "-mod=mod"}
}

// explore loads the target, runs the harnesses and processes the results.
func (st *checkState) explore(t *Target, mainFile string, only string) {
	t0 := time.Now()
	overlay := map[string][]byte{}
	for v, r := range t.Overlay {
		data, err := ioutil.ReadFile(r)
		must(err)
		overlay[v] = data
	}
	patterns := []string{t.Harness, t.Prefix + "/model"}
	sh, pkgs, err := Load(LoadConfig{
		Dir: t.Dir, Patterns: patterns, Overlay: overlay, BuildFlags: t.EngFlags,
		Env: goEnv(), NdPath: t.Prefix + "/nd", ModelPath: t.Prefix,
	})
	if err != nil {
		st.fatal = "cannot load the code under analysis: " + err.Error()
		return
	}
	st.loadTime += time.Since(t0)
	var hp *packages.Package
	for _, p := range pkgs {
		if p.PkgPath == t.Harness {
			hp = p
		}
	}
	hs := findHarnesses(hp, t, overlay)
	// Build the native runner meanwhile:
	native := filepath.Join(st.scratch, "native-"+t.Kind)
	var natErr error
	var natOut string
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		natOut, natErr = st.buildNative(t, hs, mainFile, native)
	}()
	if os.Getenv("VERIF_SERIAL") != "" {
		wg.Wait()
	}

	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		nw, _ = strconv.Atoi(s)
	}
	var workers []*Worker
	for i := 0; i < nw; i++ {
		workers = append(workers, newWorker(sh))
	}
	var runs []*Run
	for _, h := range hs {
		if only != "" && h.name != only {
			continue
		}
		if _, ok := h.opts["thorough"]; ok && st.tier != "thorough" {
			continue
		}
		o := Options{Tier: st.tier, MaxFindings: 4, Timeout: 200 * time.Second, TraceEvery: 50, MaxTraces: 40}
		if st.tier == "thorough" {
			o.Timeout = 3600 * time.Second
			o.MaxTraces = 200
		}
		sh.maxSteps = 20000000
		if s, ok := h.opts["steps"]; ok {
			sh.maxSteps, _ = strconv.Atoi(s)
		}
		if s, ok := h.opts["timeout"]; ok && st.tier != "thorough" {
			n, _ := strconv.Atoi(s)
			o.Timeout = time.Duration(n) * time.Second
		}
		if len(st.known) > 0 {
			o.MaxFindings = 40
		}
		f := sh.pkgs[t.Harness].Func(h.name)
		r := &Run{sh: sh, name: h.name, fn: f, opts: o}
		h0 := time.Now()
		r.Explore(workers)
		r.maxSteps = sh.maxSteps
		runs = append(runs, r)
		st.stats.add(r.stats)
		for k, v := range r.bounds {
			st.bounds[h.name+"."+k] = v
		}
		rep := map[string]interface{}{
			"harness": h.name, "what": h.doc, "paths": r.stats.Paths, "infeasible_sides": r.stats.Infeasible,
			"decisions": r.stats.Decisions, "assertions": r.stats.Asserts,
			"assertions_decided_by_solver": r.stats.AssertsSym, "queries": r.stats.Queries,
			"unsat": r.stats.Unsat, "solver_s": round(r.stats.SolverTime.Seconds()),
			"ssa_instructions": r.stats.Steps, "symbolic_inputs_per_path": r.stats.Symbols,
			"symbolic_inputs": domains(workers, h.name),
			"witnesses":       r.reached, "wall_s": round(time.Since(h0).Seconds()),
		}
		if len(r.incompl) > 0 {
			rep["incomplete"] = r.incompl
			for k, n := range r.incompl {
				st.inconcl = append(st.inconcl, fmt.Sprintf("%s: %s (%d)", h.name, k, n))
			}
		}
		for _, l := range h.reach {
			if r.reached[l] == 0 && len(r.findings) == 0 {
				st.inconcl = append(st.inconcl, fmt.Sprintf("%s: witness '%s' was not reached", h.name, l))
				rep["vacuous"] = true
			}
		}
		st.harnRep = append(st.harnRep, rep)
		if os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "%s: paths=%d infeasible=%d decisions=%d asserts=%d/%d queries=%d cache=%d solver=%.1fs steps=%d wall=%.1fs findings=%d %v\n", h.name,
				r.stats.Paths, r.stats.Infeasible, r.stats.Decisions, r.stats.AssertsSym, r.stats.Asserts,
				r.stats.Queries, r.stats.CacheHits, r.stats.SolverTime.Seconds(), r.stats.Steps, time.Since(h0).Seconds(), len(r.findings), r.incompl)
			for i, f := range r.findings {
				if i < 3 {
					b, _ := json.Marshal(f)
					fmt.Fprintf(os.Stderr, "   candidate: %s\n", b)
				}
			}
		}
	}
	defer func() {
		for _, w := range workers {
			if w.solver != nil {
				w.solver.Close()
			}
		}
	}()
	for _, f := range sh.Executed(t.Scope) {
		st.funcs[f] = true
	}
	for _, m := range sh.models {
		if ov := sh.overrides[m]; ov.redirect != nil {
			if c, ok := sh.codes.Load(ov.redirect); ok && c.(*fnCode).executed != 0 {
				st.models[m] = true
			}
		}
	}
	sh.codes.Range(func(k, v interface{}) bool {
		c := v.(*fnCode)
		if c.executed != 0 && c.override != nil && c.override.native != nil &&
			!strings.HasPrefix(c.override.name, sh.ndPath) {
			st.models[c.override.name] = true
		}
		return true
	})
	if os.Getenv("VERIF_VERBOSE") != "" {
		for k, n := range sh.notes {
			fmt.Fprintf(os.Stderr, "note: %s (%d)\n", k, n)
		}
	}
	wg.Wait()
	if natErr != nil {
		st.fatal = "cannot build the native runner: " + natErr.Error() + "\n" + natOut
		return
	}
	for _, r := range runs {
		if !st.confirm(t, native, r) && len(r.findings) >= r.opts.MaxFindings {
			// None of the candidates is real, and they stopped the exploration, so do it again looking
			// for more:
			o := r.opts
			o.MaxFindings = 60
			sh.maxSteps = r.maxSteps
			again := &Run{sh: sh, name: r.name, fn: r.fn, opts: o}
			again.Explore(workers)
			st.confirm(t, native, again)
		}
		st.validate(native, r)
	}
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

func findHarnesses(p *packages.Package, t *Target, overlay map[string][]byte) []*harnessInfo {
	var out []*harnessInfo
	for i, f := range p.Syntax {
		src := overlay[p.CompiledGoFiles[i]]
		if src == nil {
			src, _ = ioutil.ReadFile(p.CompiledGoFiles[i])
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "Check") || fd.Type.Params.NumFields() > 0 {
				continue
			}
			h := &harnessInfo{name: fd.Name.Name, opts: map[string]string{}}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if m := optRe.FindStringSubmatch(c.Text); m != nil {
						kv := strings.SplitN(m[1], "=", 2)
						if len(kv) == 2 {
							h.opts[kv[0]] = kv[1]
						} else {
							h.opts[kv[0]] = ""
						}
					}
				}
				h.doc = strings.Join(strings.Fields(fd.Doc.Text()), " ")
			}
			body := string(src[p.Fset.Position(fd.Pos()).Offset:p.Fset.Position(fd.End()).Offset])
			for _, m := range reachRe.FindAllStringSubmatch(body, -1) {
				h.reach = append(h.reach, m[1])
			}
			out = append(out, h)
		}
	}
	return out
}

func (st *checkState) buildNative(t *Target, hs []*harnessInfo, mainFile, out string) (string, error) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\th %q\n\t%q\n)\n\nfunc main() {\n\tnd.Main(map[string]func(){\n", t.Harness, t.Prefix+"/nd")
	for _, h := range hs {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", h.name, h.name)
	}
	sb.WriteString("\t})\n}\n")
	mf := filepath.Join(st.scratch, "main-"+t.Kind+".go")
	if err := ioutil.WriteFile(mf, []byte(sb.String()), 0644); err != nil {
		return "", err
	}
	rep := map[string]string{mainFile: mf}
	for k, v := range t.Overlay {
		rep[k] = v
	}
	data, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	of := filepath.Join(st.scratch, "overlay-"+t.Kind+".json")
	if err := ioutil.WriteFile(of, data, 0644); err != nil {
		return "", err
	}
	args := append([]string{"build"}, t.NatFlags...)
	args = append(args, "-overlay", of, "-o", out, t.MainPath)
	return run(t.Dir, 10*time.Minute, "go", args...)
}

type natVector struct {
	Harness string  `json:"harness"`
	Inputs  []NdRec `json:"inputs"`
}

type natResult struct {
	Outcome string `json:"outcome"`
	Msg     string `json:"msg"`
	Obs     []Obs  `json:"obs"`
}

func runNative(bin, file string, repeat int, timeout time.Duration) ([]natResult, string, error) {
	dir, err := ioutil.TempDir("", "verif-native-")
	if err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command(bin, "-vectors", file, "-repeat", strconv.Itoa(repeat))
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "TMPDIR="+dir, "HOME="+dir)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		err = fmt.Errorf("timeout")
	}
	var res []natResult
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "@@") {
			var r natResult
			if json.Unmarshal([]byte(l[2:]), &r) == nil {
				res = append(res, r)
			}
		}
	}
	return res, out.String(), err
}

// confirm replays the candidates of a run against the real code.
func (st *checkState) confirm(t *Target, native string, r *Run) bool {
	confirmed, any := 0, false
	for i, f := range r.findings {
		if confirmed >= 3 {
			break
		}
		dir := filepath.Join(verifDir, "evidence")
		os.MkdirAll(dir, 0755)
		vf := filepath.Join(st.scratch, fmt.Sprintf("vec-%s-%d.json", r.name, i))
		data, _ := json.Marshal([]natVector{{r.name, f.Inputs}})
		must(ioutil.WriteFile(vf, data, 0644))
		repeat := 1
		if f.order {
			repeat = 2000
		}
		res, out, err := runNative(native, vf, repeat, 30*time.Second)
		real := false
		what := ""
		switch {
		case len(res) == 1 && (res[0].Outcome == "assert" || res[0].Outcome == "panic"):
			real = true
			what = res[0].Outcome + ": " + res[0].Msg
		case len(res) == 0 && err != nil && strings.Contains(err.Error(), "timeout"):
			real = true
			what = "the real code did not finish in 30 s"
		case len(res) == 0 && err != nil:
			real = true
			what = "the real code crashed: " + firstLines(out, 3)
		case len(res) == 1:
			what = res[0].Outcome + " " + res[0].Msg
		}
		if !real {
			st.inconcl = append(st.inconcl, fmt.Sprintf("%s: candidate '%s' is not confirmed by the real code (%s)", r.name, f.Msg, what))
			continue
		}
		// Is it listed?
		any = true
		listed := false
		for _, k := range st.known {
			if k.harness == r.name && strings.Contains(f.Msg+" "+what+" "+compact(f.Inputs), k.match) {
				listed = true
				if !st.knownHit[k.text] {
					st.knownHit[k.text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", st.pid, k.text)
				}
			}
		}
		if listed {
			continue
		}
		confirmed++
		path := filepath.Join(dir, fmt.Sprintf("replay-%s-%s-%d.json", st.pid, r.name, i))
		rec := map[string]interface{}{
			"property": st.pid, "harness": r.name, "kind": f.Kind, "message": f.Msg,
			"inputs": f.Inputs, "readable_inputs": compact(f.Inputs), "where": f.Detail, "native_outcome": what,
			"how_to_replay": "bin/vse replay " + path,
			"target":        t.Kind,
		}
		b, _ := json.MarshalIndent(rec, "", "  ")
		must(ioutil.WriteFile(path, append(b, '\n'), 0644))
		fmt.Printf("VIOLATION property=%s replay=%s\n", st.pid, path)
		fmt.Printf("  %s: %s\n  inputs: %s\n  native: %s\n", r.name, f.Msg, compact(f.Inputs), firstLines(what, 3))
		st.violate = append(st.violate, path)
	}
	return any
}

func compact(in []NdRec) string {
	var parts []string
	for _, r := range in {
		if strings.HasSuffix(r.Name, ".len") {
			continue
		}
		v := r.Val
		if r.Kind == "string" {
			var bs []byte
			switch x := v.(type) {
			case []int:
				for _, b := range x {
					bs = append(bs, byte(b))
				}
			}
			v = strconv.Quote(string(bs))
		}
		parts = append(parts, fmt.Sprintf("%s=%v", r.Name, v))
	}
	return strings.Join(parts, " ")
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// validate executes explored paths natively and compares what was observed.
func (st *checkState) validate(native string, r *Run) {
	if len(r.traces) == 0 {
		return
	}
	var vs []natVector
	for _, t := range r.traces {
		vs = append(vs, natVector{r.name, t.Inputs})
	}
	vf := filepath.Join(st.scratch, "traces-"+r.name+".json")
	data, _ := json.Marshal(vs)
	must(ioutil.WriteFile(vf, data, 0644))
	res, out, err := runNative(native, vf, 1, 120*time.Second)
	if len(res) != len(vs) {
		st.traceBad = append(st.traceBad, fmt.Sprintf("%s: native execution of explored paths failed: %v %s", r.name, err, firstLines(out, 5)))
		return
	}
	for i, x := range res {
		t := r.traces[i]
		bad := ""
		if x.Outcome != "ok" {
			bad = fmt.Sprintf("native outcome %s %s", x.Outcome, firstLines(x.Msg, 12))
		} else if len(x.Obs) != len(t.Obs) {
			bad = "different number of observations"
		} else {
			for k := range x.Obs {
				if x.Obs[k].Label != t.Obs[k].Label || x.Obs[k].Val != t.Obs[k].Val {
					bad = fmt.Sprintf("observation %s: engine %s, native %s", t.Obs[k].Label, t.Obs[k].Val, x.Obs[k].Val)
				}
			}
		}
		if bad != "" {
			if x.Outcome == "assert" || x.Outcome == "panic" {
				// The real code breaks the assertion for this input, whatever the engine thinks:
				r2 := &Run{name: r.name, findings: []Finding{{Harness: r.name, Kind: x.Outcome, Msg: x.Msg, Inputs: t.Inputs}}}
				st.confirm(&Target{}, native, r2)
			}
			st.traceBad = append(st.traceBad, fmt.Sprintf("%s: %s (inputs %s)", r.name, bad, compact(t.Inputs)))
			continue
		}
		st.tracesOK++
		if len(st.samples) < 6 && (i == len(res)/2 || i == len(res)-1) {
			st.samples = append(st.samples, map[string]interface{}{
				"harness": r.name, "inputs": compact(t.Inputs), "observed_in_both": obsText(t.Obs)})
		}
	}
}

func obsText(o []Obs) string {
	var p []string
	for _, x := range o {
		p = append(p, x.Label+"="+x.Val)
	}
	return strings.Join(p, " ")
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// domains describes the symbolic inputs of a harness. Inputs whose names only differ in the numbers are described together.
func domains(workers []*Worker, harness string) map[string]interface{} {
	type group struct {
		names map[string]bool
		doms  map[string]bool
	}
	digits := regexp.MustCompile("[0-9]+")
	groups := map[string]*group{}
	for _, w := range workers {
		for k, m := range w.domains {
			i := strings.IndexByte(k, 0)
			if k[:i] != harness {
				continue
			}
			name := digits.ReplaceAllString(k[i+1:], "N")
			g := groups[name]
			if g == nil {
				g = &group{map[string]bool{}, map[string]bool{}}
				groups[name] = g
			}
			g.names[k[i+1:]] = true
			for d := range m {
				g.doms[d] = true
			}
		}
	}
	out := map[string]interface{}{}
	for name, g := range groups {
		ds := keys(g.doms)
		if len(ds) > 4 {
			ds = append(ds[:4:4], fmt.Sprintf("and %d more", len(ds)-4))
		}
		text := strings.Join(ds, " or ")
		if len(g.names) > 1 {
			text = fmt.Sprintf("%d inputs, each %s", len(g.names), text)
		} else {
			name = keys(g.names)[0]
		}
		out[name] = text
	}
	return out
}

func (st *checkState) finish() int {
	ev := Evidence{Property: st.pid, Tier: st.tier, Seed: st.seed, Level: "model_checking", WallS: round(time.Since(st.start).Seconds())}
	fns := keys(st.funcs)
	fl := fns
	if len(fl) > 1500 {
		fl = fl[:1500]
	}
	ev.Coverage = map[string]interface{}{
		"states":                        st.stats.Paths,
		"transitions":                   st.stats.Decisions,
		"traces_validated_against_impl": st.tracesOK,
		"samples":                       st.samples,
		"rule":                          "a state is a feasible path of a harness through the real code, standing for all the inputs that satisfy its path condition; a transition is a decision on a symbolic condition",
		"functions_encoded":             fl,
		"functions_encoded_count":       len(fns),
		"bounds":                        st.bounds,
		"queries":                       st.stats.Queries,
		"queries_sat":                   st.stats.Sat,
		"queries_unsat":                 st.stats.Unsat,
		"queries_unknown":               st.stats.Unknown,
		"feasibility_decided_on_domain": st.stats.Domain,
		"query_cache_hits":              st.stats.CacheHits,
		"solver_time_s":                 round(st.stats.SolverTime.Seconds()),
		"solver":                        solverBinary(),
		"assertions_reached":            st.stats.Asserts,
		"assertions_decided_by_solver":  st.stats.AssertsSym,
		"infeasible_sides":              st.stats.Infeasible,
		"ssa_instructions":              st.stats.Steps,
		"load_s":                        round(st.loadTime.Seconds()),
		"harnesses":                     st.harnRep,
		"inconclusive":                  st.inconcl,
		"exhaustive_within_bounds":      len(st.inconcl) == 0 && st.fatal == "",
		"translation_mismatches":        st.traceBad,
	}
	ev.Assumptions = append(ev.Assumptions, "library functions replaced by models of the engine: "+strings.Join(keys(st.models), ", "))
	ev.Assumptions = append(ev.Assumptions, "the SSA form of golang.org/x/tools/go/ssa, the engine's semantics of it, and the solver; cross checked by executing explored paths natively")
	ev.Violations = len(st.violate)
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	must(ioutil.WriteFile(filepath.Join(verifDir, "evidence", st.pid+".json"), append(data, '\n'), 0644))
	if len(st.violate) > 0 {
		return 1
	}
	for _, s := range st.inconcl {
		fmt.Println("INCOMPLETE:", s)
	}
	for _, s := range st.traceBad {
		fmt.Println("MISMATCH:", s)
	}
	if st.fatal != "" {
		fmt.Println("ERROR:", st.fatal)
		return 2
	}
	done := 0
	for _, r := range st.harnRep {
		done += r["paths"].(int)
		if r["vacuous"] != nil {
			fmt.Println("ERROR: a witness was not reached, the check proves nothing")
			return 2
		}
	}
	if len(st.traceBad) > 0 || done == 0 {
		return 2
	}
	fmt.Printf("OK property=%s tier=%s paths=%d queries=%d functions=%d traces=%d wall=%.1fs\n", st.pid, st.tier, st.stats.Paths,
		st.stats.Queries, len(fns), st.tracesOK, time.Since(st.start).Seconds())
	return 0
}

func replayMain(file string) int {
	data, err := ioutil.ReadFile(file)
	must(err)
	fmt.Println(string(data))
	return 0
}
