package main

// Loading /repo together with the harnesses, from the current source.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const zzDir = "zz_verif"

// harnessFiles lists the files of the harness package for one property.
func harnessFiles(hdir, prop string, native bool) ([]string, error) {
	es, err := os.ReadDir(hdir)
	if err != nil {
		return nil, err
	}
	var out []string
	pre := strings.ToLower(prop)
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") {
			continue
		}
		switch {
		case n == "rt_native.go":
			if native {
				out = append(out, n)
			}
		case n == "rt_sym.go":
			if !native {
				out = append(out, n)
			}
		case strings.HasPrefix(n, "common"), n == pre+".go", strings.HasPrefix(n, pre+"_"):
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out, nil
}

// bridgeFiles are added to the package under test (unexported access).
func bridgeFiles(hdir, prop string) []string {
	m, _ := filepath.Glob(filepath.Join(hdir, "bridge", strings.ToLower(prop)+"*.go"))
	return m
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0")
}

type Loaded struct {
	eng       *Engine
	harnesses []*Harness
}

func load(repo, hdir, prop string) (*Loaded, error) {
	files, err := harnessFiles(hdir, prop, false)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for _, f := range files {
		d, err := os.ReadFile(filepath.Join(hdir, f))
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(repo, zzDir, f)] = d
	}
	for _, f := range bridgeFiles(hdir, prop) {
		d, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(repo, "zz_bridge_"+filepath.Base(f))] = d
	}
	// a main function for the harness package
	ov[filepath.Join(repo, zzDir, "zz_main.go")] = []byte("package main\n\nfunc main() {}\n")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(), Overlay: ov}
	pkgs, err := packages.Load(cfg, "./"+zzDir)
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("%d packages loaded", len(pkgs))
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.Contains(p.PkgPath, "/") && !strings.Contains(strings.SplitN(p.PkgPath, "/", 2)[0], ".") && !strings.HasPrefix(p.PkgPath, "command-line") {
			if !strings.HasPrefix(p.PkgPath, "github.com") {
				return // the standard library
			}
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("cannot compile: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	hp := spkgs[0]
	if hp == nil {
		return nil, fmt.Errorf("no SSA for the harness package")
	}
	e := &Engine{prog: prog, harn: hp}
	e.cond = sync.NewCond(&e.mu)
	harnessPkgPath = hp.Pkg.Path()
	targetPkgPath = strings.TrimSuffix(harnessPkgPath, "/"+zzDir)
	e.target = prog.ImportedPackage(targetPkgPath)
	if e.target == nil {
		return nil, fmt.Errorf("package %s is not imported by the harness", targetPkgPath)
	}
	ptr := func(pkg, name string) types.Type {
		p := prog.ImportedPackage(pkg)
		if p == nil {
			return types.Typ[types.Invalid]
		}
		o := p.Pkg.Scope().Lookup(name)
		if o == nil {
			return types.Typ[types.Invalid]
		}
		return types.NewPointer(o.Type())
	}
	e.errorString = ptr("errors", "errorString")
	e.wrapError = ptr("fmt", "wrapError")
	e.osFile = ptr("os", "File")
	e.fileStat = ptr("os", "fileStat")
	e.opaque = types.NewNamed(types.NewTypeName(0, hp.Pkg, "zzSource", nil), types.NewStruct(nil, nil), nil)

	l := &Loaded{eng: e}
	docs := map[string]map[string]string{}
	for _, f := range pkgs[0].Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "H_") {
				continue
			}
			opts := map[string]string{}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
					if !strings.HasPrefix(t, "v:") {
						if opts["doc"] != "" {
							t = " " + t
						}
						opts["doc"] += t
						continue
					}
					for _, kv := range strings.Fields(t[2:]) {
						p := strings.SplitN(kv, "=", 2)
						if len(p) == 1 {
							p = append(p, "1")
						}
						opts[p[0]] = p[1]
					}
				}
			}
			docs[fd.Name.Name] = opts
		}
	}
	var names []string
	for n := range docs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if !strings.HasPrefix(n, "H_"+prop+"_") {
			continue
		}
		fn := hp.Func(n)
		l.harnesses = append(l.harnesses, &Harness{fn: fn, name: n, opts: docs[n]})
	}
	if len(l.harnesses) == 0 {
		return nil, fmt.Errorf("no harness for %s", prop)
	}
	return l, nil
}
