package main

// The generated target: the generator is built from the current tree of the repository and it is used
// to generate the code for the models of the corpus; that generated code, together with the harness, is
// the program under analysis.

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"time"
)

const genMod = "verifgen"

func (st *checkState) genTarget(lp, only string) {
	dir := filepath.Join(st.scratch, "gen")
	must(os.MkdirAll(dir, 0755))
	mod, err := ioutil.ReadFile(filepath.Join(repoDir, "tests/go/go.mod"))
	must(err)
	lines := strings.Split(string(mod), "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "module ") {
			lines[i] = "module " + genMod
		}
	}
	must(ioutil.WriteFile(filepath.Join(dir, "go.mod"), []byte(strings.Join(lines, "\n")), 0644))
	sum, err := ioutil.ReadFile(filepath.Join(repoDir, "tests/go/go.sum"))
	must(err)
	must(ioutil.WriteFile(filepath.Join(dir, "go.sum"), sum, 0644))

	// Build the generator:
	t0 := time.Now()
	tool := filepath.Join(st.scratch, "metamodel")
	out, err := run(repoDir, 10*time.Minute, "go", "build", "-mod=mod", "-modfile="+st.modCopy(), "-o", tool, "./cmd/metamodel")
	if err != nil {
		st.fatal = "cannot build the generator: " + err.Error() + "\n" + out
		return
	}

	// Generate the code:
	hd := filepath.Join(verifDir, "harness/gen", lp)
	corpus := "main"
	if data, err := ioutil.ReadFile(filepath.Join(hd, "corpus.txt")); err == nil {
		corpus = strings.TrimSpace(string(data))
	}
	model := filepath.Join(verifDir, "corpus", corpus)
	out, err = run(dir, 5*time.Minute, tool, "generate", "go", "--model="+model, "--base="+genMod+"/api", "--output="+filepath.Join(dir, "api"))
	if err != nil {
		st.genViolation(lp, "the code can't be generated for the models in "+model, out)
		return
	}
	out, err = run(dir, 10*time.Minute, "go", "build", "./...")
	if err != nil {
		st.genViolation(lp, "the code generated for the models in "+model+" doesn't compile", out)
		return
	}

	// Copy the harness, with the imports adapted:
	vd := filepath.Join(dir, "zzverif")
	copyDir := func(from, to string) {
		for _, f := range goFiles(from) {
			data, err := ioutil.ReadFile(f)
			must(err)
			text := strings.ReplaceAll(string(data), repoMod+"/zzverif", genMod+"/zzverif")
			must(os.MkdirAll(to, 0755))
			must(ioutil.WriteFile(filepath.Join(to, filepath.Base(f)), []byte(text), 0644))
		}
	}
	for _, d := range []string{"nd", "model", "vfs", "jsonx"} {
		copyDir(filepath.Join(verifDir, "harness", d), filepath.Join(vd, d))
	}
	copyDir(hd, filepath.Join(vd, lp))
	for _, d := range []string{"gx", "wx", "cx"} {
		copyDir(filepath.Join(verifDir, "harness/gen", d), filepath.Join(vd, d))
	}
	out, err = run(dir, 10*time.Minute, "go", "build", "./zzverif/"+lp)
	if err != nil {
		st.genViolation(lp, "the code generated for the models in "+model+" doesn't provide the interface that corresponds to the model", out)
		return
	}
	st.loadTime += time.Since(t0)

	t := &Target{Kind: "gen", Dir: dir, Overlay: map[string]string{}, Prefix: genMod + "/zzverif"}
	t.HarnessDir = hd
	t.Harness = t.Prefix + "/" + lp
	t.MainPath = t.Prefix + "/" + lp + "main"
	t.Scope = func(p string) bool { return strings.HasPrefix(p, genMod+"/api") }
	st.explore(t, filepath.Join(vd, lp+"main", "main.go"), only)
}

// modCopy returns the path of a copy of the module file of the repository, so that the go tool doesn't
// change it.
func (st *checkState) modCopy() string {
	d := filepath.Join(st.scratch, "tool")
	os.MkdirAll(d, 0755)
	for _, n := range []string{"go.mod", "go.sum"} {
		data, err := ioutil.ReadFile(filepath.Join(repoDir, n))
		must(err)
		must(ioutil.WriteFile(filepath.Join(d, n), data, 0644))
	}
	return filepath.Join(d, "go.mod")
}

func (st *checkState) genViolation(lp, what, out string) {
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("replay-%s-generate.txt", st.pid))
	must(ioutil.WriteFile(path, []byte(what+"\n\n"+out+"\n"), 0644))
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n  %s\n", st.pid, path, what, firstLines(out, 10))
	st.violate = append(st.violate, path)
}
