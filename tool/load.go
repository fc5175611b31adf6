package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/iomz/gosstrak"

// Prog is the loaded program under analysis.
type Prog struct {
	root   string
	fset   *token.FileSet
	ssa    *ssa.Program
	pkgs   map[string]*ssa.Package // by import path
	tpkgs  map[string]*packages.Package
	errT   types.Type // *errors.errorString
	mu     sync.Mutex
	interp map[*ssa.Function]bool
}

// library packages whose bodies are interpreted instead of modelled
var interpLibs = map[string]bool{
	"github.com/iomz/go-llrp": true, "github.com/iomz/go-llrp/binutil": true,
	"strings": true, "bytes": true, "strconv": true, "sort": true, "slices": true, "maps": true, "cmp": true,
	"unicode/utf8": true, "unicode": true, "errors": true, "math/bits": true, "iter": true, "container/list": true,
	"encoding/binary": true, "math": true, "internal/bytealg": true, "internal/stringslite": true, "encoding/hex": true, "math/big": false, "github.com/looplab/fsm": true,
}

// partLibs are library packages of which some functions are interpreted; their
// package variables stay unknown.
var partLibs = map[string]func(name string) bool{
	"io": func(n string) bool {
		return n != "ReadFull" && n != "ReadAtLeast" && n != "ReadAll" && !strings.Contains(strings.ToLower(n), "pipe")
	},
	"sync": func(n string) bool { return n == "OnceFunc" || n == "OnceValue" || n == "OnceValues" },
	"bufio": func(n string) bool {
		return n == "NewWriter" || n == "NewWriterSize" || strings.HasPrefix(n, "Writer.")
	},
}

// partInterp is true for the interpreted functions of partLibs.
func partInterp(fn *ssa.Function, path string) bool {
	ok := partLibs[path]
	if ok == nil {
		return false
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	n := fn.Name()
	if rv := fn.Signature.Recv(); rv != nil {
		t := rv.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nm, ok := t.(*types.Named); ok {
			n = nm.Obj().Name() + "." + n
		}
	}
	return ok(n)
}

func loadProg(root string, patterns ...string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: root,
		Env: append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOOS=linux", "GOARCH=amd64", "GOWORK=off"),
	}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the program does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(pk) == 0 {
		return nil, fmt.Errorf("no packages match %v", patterns)
	}
	sp, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	pr := &Prog{root: root, fset: sp.Fset, ssa: sp, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*packages.Package{}, interp: map[*ssa.Function]bool{}}
	packages.Visit(pk, nil, func(p *packages.Package) { pr.tpkgs[p.PkgPath] = p })
	for _, p := range sp.AllPackages() {
		path := p.Pkg.Path()
		if pr.pkgs[path] == nil || strings.HasPrefix(path, modPath) {
			pr.pkgs[path] = p
		}
		if pr.isRepo(path) || interpLibs[path] || partLibs[path] != nil {
			p.Build()
		}
	}
	if p := pr.pkgs["errors"]; p != nil {
		if t := p.Pkg.Scope().Lookup("errorString"); t != nil {
			pr.errT = types.NewPointer(t.Type())
		}
	}
	return pr, nil
}

func (pr *Prog) isRepo(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

// pkg returns a repository package by its path relative to the module.
func (pr *Prog) pkg(rel string) *ssa.Package {
	if rel == "" {
		return pr.pkgs[modPath]
	}
	return pr.pkgs[modPath+"/"+rel]
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

func (pr *Prog) interpretable(fn *ssa.Function) bool {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	if v, ok := pr.interp[fn]; ok {
		return v
	}
	v := false
	p := fnPkg(fn)
	if fn.Synthetic != "" && fn.Origin() == nil && fn.Parent() == nil && fn.Pkg == nil {
		v = true // wrappers, thunks and bound methods only forward
	} else if p != nil && (pr.isRepo(p.Path()) || interpLibs[p.Path()] || partInterp(fn, p.Path())) {
		v = true
	} else if p == nil {
		v = true
	}
	pr.interp[fn] = v
	return v
}

// initable packages have their variable initialisers interpreted.
func (pr *Prog) initable(p *ssa.Package) bool {
	if p == nil {
		return false
	}
	path := p.Pkg.Path()
	return pr.isRepo(path) || interpLibs[path]
}

func (pr *Prog) method(t types.Type, m *types.Func) *ssa.Function {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	return pr.ssa.LookupMethod(t, m.Pkg(), m.Name())
}

func (pr *Prog) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := pr.fset.Position(p)
	f := ps.Filename
	if rel, err := filepath.Rel(pr.root, f); err == nil && !strings.HasPrefix(rel, "..") {
		f = rel
	} else {
		f = filepath.Base(filepath.Dir(f)) + "/" + filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}
func (pr *Prog) posShort(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := pr.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
}

// fn finds a package level function.
func (pr *Prog) fn(rel, name string) *ssa.Function {
	p := pr.pkg(rel)
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// typ finds a named type.
func (pr *Prog) typ(rel, name string) types.Type {
	p := pr.pkg(rel)
	if p == nil {
		return nil
	}
	if o := p.Pkg.Scope().Lookup(name); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	return nil
}

// meth finds a method of T or *T by name.
func (pr *Prog) meth(rel, typ, name string) *ssa.Function {
	t := pr.typ(rel, typ)
	if t == nil {
		return nil
	}
	pr.mu.Lock()
	defer pr.mu.Unlock()
	for _, x := range []types.Type{types.NewPointer(t), t} {
		if sel := pr.ssa.MethodSets.MethodSet(x).Lookup(t.(*types.Named).Obj().Pkg(), name); sel != nil {
			if f := pr.ssa.MethodValue(sel); f != nil {
				return f
			}
		}
	}
	return nil
}
