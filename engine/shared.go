package main

// Loading of the program under analysis and the state shared by the workers.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type override struct {
	name     string
	native   func(fr *frame, args []Value) Value
	redirect *ssa.Function
}

type Shared struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	codes     sync.Map
	progMu    sync.Mutex
	overrides map[string]*override
	ndPath    string
	maxSteps  int
	maxDepth  int
	rtErrType types.Type
	notesMu   sync.Mutex
	notes     map[string]int
	funcs     sync.Map
	models    []string
	rt        rtypes
}

func (sh *Shared) note(s string) {
	sh.notesMu.Lock()
	sh.notes[s]++
	sh.notesMu.Unlock()
}

func (sh *Shared) build(p *ssa.Package) { p.Build() }

func (sh *Shared) findFunc(pkg, name string) *ssa.Function {
	k := pkg + "." + name
	if f, ok := sh.funcs.Load(k); ok {
		return f.(*ssa.Function)
	}
	p := sh.pkgs[pkg]
	if p == nil {
		panic(pathEnd{"unsupported", "package " + pkg + " is not loaded"})
	}
	f := p.Func(name)
	if f == nil {
		panic(pathEnd{"unsupported", "no function " + k})
	}
	sh.funcs.Store(k, f)
	return f
}

func (sh *Shared) findType(pkg, name string) types.Type {
	p := sh.pkgs[pkg]
	if p == nil {
		panic(pathEnd{"unsupported", "package " + pkg + " is not loaded"})
	}
	t := p.Type(name)
	if t == nil {
		panic(pathEnd{"unsupported", "no type " + pkg + "." + name})
	}
	return t.Type()
}

func (sh *Shared) findOverride(fn *ssa.Function) *override {
	key := fnKey(fn)
	if ov, ok := sh.overrides[key]; ok {
		return ov
	}
	if sh.ndPath != "" && strings.HasPrefix(key, sh.ndPath+".") {
		if f, ok := ndFuncs[key[len(sh.ndPath)+1:]]; ok {
			return &override{name: key, native: f}
		}
	}
	if f, ok := natives[key]; ok {
		return &override{name: key, native: f}
	}
	if strings.HasPrefix(key, "(reflect.Value).") {
		// The values have a representation that the library doesn't understand.
		return &override{name: key, native: func(fr *frame, args []Value) Value {
			panic(pathEnd{"unsupported", "external function " + key})
		}}
	}
	if strings.HasPrefix(key, "sync/atomic.") || strings.HasPrefix(key, "internal/runtime/atomic.") {
		if f := atomicOp(key[strings.LastIndexByte(key, '.')+1:]); f != nil {
			return &override{name: key, native: f}
		}
	}
	return nil
}

type LoadConfig struct {
	Dir        string
	Patterns   []string
	Overlay    map[string][]byte
	BuildFlags []string
	Env        []string
	NdPath     string
	ModelPath  string
}

// Load loads the packages and creates the SSA program.
func Load(cfg LoadConfig) (*Shared, []*packages.Package, error) {
	pc := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Dir:        cfg.Dir,
		Overlay:    cfg.Overlay,
		BuildFlags: cfg.BuildFlags,
		Env:        append(os.Environ(), cfg.Env...),
	}
	pkgs, err := packages.Load(pc, cfg.Patterns...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 20 {
			errs = errs[:20]
		}
		return nil, pkgs, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	sh := &Shared{
		prog:      prog,
		pkgs:      map[string]*ssa.Package{},
		overrides: map[string]*override{},
		ndPath:    cfg.NdPath,
		maxSteps:  20000000,
		maxDepth:  6000,
		notes:     map[string]int{},
	}
	for _, p := range prog.AllPackages() {
		sh.pkgs[p.Pkg.Path()] = p
	}
	prog.Build()
	sh.rtErrType = sh.findType("runtime", "errorString")
	// Collect the models:
	if cfg.ModelPath != "" {
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			if !strings.HasPrefix(p.PkgPath, cfg.ModelPath+"/") {
				return
			}
			sp := sh.pkgs[p.PkgPath]
			for _, f := range p.Syntax {
				for _, d := range f.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Doc == nil {
						continue
					}
					for _, c := range fd.Doc.List {
						if strings.HasPrefix(c.Text, "//override ") {
							name := strings.TrimSpace(c.Text[len("//override "):])
							sf := sp.Func(fd.Name.Name)
							if sf == nil {
								continue
							}
							sh.overrides[name] = &override{name: name, redirect: sf}
							sh.models = append(sh.models, name)
						}
					}
				}
			}
		})
	}
	return sh, pkgs, nil
}

// Executed lists the functions that were executed, by package path prefix.
func (sh *Shared) Executed(match func(pkg string) bool) []string {
	var out []string
	sh.codes.Range(func(k, v interface{}) bool {
		c := v.(*fnCode)
		if c.executed == 0 || c.initPkg {
			return true
		}
		p := c.fn.Package()
		if p == nil && c.fn.Origin() != nil {
			p = c.fn.Origin().Package()
		}
		if p == nil && c.fn.Parent() != nil {
			p = c.fn.Parent().Package()
		}
		if p != nil && match(p.Pkg.Path()) {
			out = append(out, c.fn.String())
		}
		return true
	})
	sort.Strings(out)
	return out
}
