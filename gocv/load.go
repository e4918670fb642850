package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/google/licensecheck"

// Prog is the loaded program under verification.
type Prog struct {
	fset   *token.FileSet
	repo   string
	pkgs   map[string]*ssa.Package // by short name: licensecheck, match, old
	infos  map[string]*types.Info
	files  map[string][]*ast.File
	tpkgs  map[string]*types.Package // by import path
	ssa    *ssa.Program
	fcache map[string]*ssa.Function
	lits   map[*types.Var]ast.Expr // initializers of package-level variables
	litIn  map[*types.Var]*types.Info
}

var repoPkgs = []struct{ short, path, dir string }{
	{"match", modPath + "/internal/match", "internal/match"},
	{"licensecheck", modPath, "."},
	{"old", modPath + "/old", "old"},
}

func load(repo string, want map[string]bool) (*Prog, error) {
	if want["licensecheck"] {
		want["match"] = true
	}
	p := &Prog{fset: token.NewFileSet(), repo: repo,
		pkgs: map[string]*ssa.Package{}, infos: map[string]*types.Info{}, files: map[string][]*ast.File{},
		tpkgs: map[string]*types.Package{}, lits: map[*types.Var]ast.Expr{}, litIn: map[*types.Var]*types.Info{}}
	// Export data for the standard library.
	std := map[string]bool{}
	type parsed struct {
		short, path string
		files       []*ast.File
	}
	var all []parsed
	for _, rp := range repoPkgs {
		if !want[rp.short] {
			continue
		}
		dir := filepath.Join(repo, rp.dir)
		bp, err := build.Default.ImportDir(dir, 0)
		if err != nil {
			return nil, err
		}
		var files []*ast.File
		for _, f := range bp.GoFiles {
			af, err := parser.ParseFile(p.fset, filepath.Join(dir, f), nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			files = append(files, af)
			for _, im := range af.Imports {
				path := strings.Trim(im.Path.Value, `"`)
				if !strings.HasPrefix(path, modPath) {
					std[path] = true
				}
			}
		}
		all = append(all, parsed{rp.short, rp.path, files})
	}
	exports := map[string]string{}
	args := []string{"list", "-export", "-deps", "-f", "{{.ImportPath}} {{.Export}}"}
	for s := range std {
		args = append(args, s)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GOPROXY=off")
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v", err)
	}
	for _, l := range strings.Split(string(out), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 {
			exports[f[0]] = f[1]
		}
	}
	gc := importer.ForCompiler(p.fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := impFunc(func(path string) (*types.Package, error) {
		if q := p.tpkgs[path]; q != nil {
			return q, nil
		}
		return gc.Import(path)
	})
	p.ssa = ssa.NewProgram(p.fset, ssa.NaiveForm|ssa.InstantiateGenerics)
	created := map[*types.Package]bool{}
	var createDeps func(q *types.Package)
	createDeps = func(q *types.Package) {
		for _, d := range q.Imports() {
			if !created[d] && p.tpkgs[d.Path()] == nil {
				created[d] = true
				p.ssa.CreatePackage(d, nil, nil, true)
				createDeps(d)
			}
		}
	}
	for _, a := range all {
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
		conf := types.Config{Importer: imp, GoVersion: "go1.12", Error: func(error) {}}
		tp, err := conf.Check(a.path, p.fset, a.files, info)
		if err != nil {
			// gofmt'ed newer syntax: retry with no version limit
			conf.GoVersion = ""
			if tp, err = conf.Check(a.path, p.fset, a.files, info); err != nil {
				return nil, fmt.Errorf("type checking %s: %v", a.path, err)
			}
		}
		p.tpkgs[a.path] = tp
		p.infos[a.short] = info
		p.files[a.short] = a.files
		createDeps(tp)
		sp := p.ssa.CreatePackage(tp, a.files, info, false)
		p.pkgs[a.short] = sp
		for _, f := range a.files {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Values) == len(vs.Names) {
						for i, n := range vs.Names {
							if v, ok := info.Defs[n].(*types.Var); ok {
								p.lits[v] = vs.Values[i]
								p.litIn[v] = info
							}
						}
					}
				}
			}
		}
	}
	p.ssa.Build()
	return p, nil
}

type impFunc func(string) (*types.Package, error)

func (f impFunc) Import(path string) (*types.Package, error) { return f(path) }

// shortPkg returns the short name of a repo package, or "".
func shortPkg(path string) string {
	for _, rp := range repoPkgs {
		if rp.path == path {
			return rp.short
		}
	}
	return ""
}

// funcKey returns the contract key of an SSA function: pkg.Func, pkg.Type.Method, pkg.Func$1.
func funcKey(f *ssa.Function) string {
	if f.Parent() != nil {
		// anonymous: number among parent's anon functions
		for i, a := range f.Parent().AnonFuncs {
			if a == f {
				return fmt.Sprintf("%s$%d", funcKey(f.Parent()), i+1)
			}
		}
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	if s := shortPkg(pkg); s != "" {
		pkg = s
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return pkg + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return pkg + "." + f.Name()
}

// allFuncs lists every function with a body in the repo packages, by key.
func (p *Prog) allFuncs() map[string]*ssa.Function {
	if p.fcache == nil {
		p.fcache = p.collectFuncs()
	}
	return p.fcache
}

func (p *Prog) allFuncsCached() map[string]*ssa.Function { return p.allFuncs() }

func (p *Prog) collectFuncs() map[string]*ssa.Function {
	m := map[string]*ssa.Function{}
	var addf func(f *ssa.Function)
	addf = func(f *ssa.Function) {
		if f == nil || len(f.Blocks) == 0 || f.Synthetic != "" && f.Name() != "init" {
			return
		}
		m[funcKey(f)] = f
		for _, a := range f.AnonFuncs {
			addf(a)
		}
	}
	for _, sp := range p.pkgs {
		for _, mem := range sp.Members {
			switch x := mem.(type) {
			case *ssa.Function:
				addf(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := p.ssa.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := p.ssa.MethodValue(ms.At(i))
						if f != nil && f.Pkg == sp {
							addf(f)
						}
					}
				}
			}
		}
	}
	return m
}
