// Package load type-checks the module under analysis from source and builds its
// SSA form. A driver file that exists in memory only instantiates the generic
// API for both kinds of inputs.
package load

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the resolved program.
type Program struct {
	Dir      string
	Prog     *ssa.Program
	Fset     *token.FileSet
	Root     *ssa.Package
	Pkgs     map[string]*ssa.Package // by import path
	Packages map[string]*packages.Package
	ModPath  string
	Sizes    types.Sizes
	NumFuncs int
}

const rootDriver = `package jscandec

import "github.com/romshark/jscan/v2"

type verifDest struct{ A, B int }

func verifDriverBytes(s []byte, tk *jscan.Tokenizer[[]byte]) {
	var d *Decoder[[]byte, verifDest]
	d, _ = NewDecoder[[]byte, verifDest](tk, DefaultInitOptions)
	var t verifDest
	_, _ = d.Decode(s, &t, DefaultOptions)
	_ = Unmarshal[[]byte, verifDest](s, &t)
}

func verifDriverString(s string, tk *jscan.Tokenizer[string]) {
	var d *Decoder[string, verifDest]
	d, _ = NewDecoder[string, verifDest](tk, DefaultInitOptions)
	var t verifDest
	_, _ = d.Decode(s, &t, DefaultOptions)
	_ = Unmarshal[string, verifDest](s, &t)
}
`

// Text functions are instantiated for all element types by drivers of their own.
const atoiDriver = `package atoi

func verifDriver(s string, b []byte) {
	U8(s); U8(b); I8(s); I8(b)
	U16(s); U16(b); I16(s); I16(b)
	U32(s); U32(b); I32(s); I32(b)
	U64(s); U64(b); I64(s); I64(b)
}
`

const jsonnumDriver = `package jsonnum

func verifDriver(s string, b []byte) { ReadNumber(s); ReadNumber(b) }
`

const unescapeDriver = `package unescape

func verifDriver(s string, b []byte) {
	Valid[string, string](s); Valid[string, []byte](s)
	Valid[[]byte, string](b); Valid[[]byte, []byte](b)
}
`

// Load loads the module in dir.
func Load(dir string) (*Program, error) { return LoadFor(dir, "amd64") }

// LoadFor loads the module in dir for an architecture.
func LoadFor(dir, arch string) (*Program, error) {
	overlay := map[string][]byte{
		filepath.Join(dir, "zz_verif_driver.go"):                   []byte(rootDriver),
		filepath.Join(dir, "internal/atoi/zz_verif_driver.go"):     []byte(atoiDriver),
		filepath.Join(dir, "internal/jsonnum/zz_verif_driver.go"):  []byte(jsonnumDriver),
		filepath.Join(dir, "internal/unescape/zz_verif_driver.go"): []byte(unescapeDriver),
	}
	// Use the toolchain the repository is built with.
	if goroot := "/usr/lib/go-1.21"; dirExists(goroot + "/bin") {
		os.Setenv("PATH", goroot+"/bin:"+os.Getenv("PATH"))
	}
	os.Unsetenv("GOROOT")
	env := append(os.Environ(),
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "CGO_ENABLED=0", "GOARCH="+arch,
	)
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles |
			packages.NeedImports | packages.NeedDeps | packages.NeedTypes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes |
			packages.NeedModule,
		Dir:     dir,
		Env:     env,
		Fset:    fset,
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Dir: dir, Fset: fset, Pkgs: map[string]*ssa.Package{},
		Packages: map[string]*packages.Package{}}
	var roots []*packages.Package
	var errs []string
	for _, pk := range pkgs {
		if strings.HasSuffix(pk.PkgPath, "/bench") {
			continue
		}
		roots = append(roots, pk)
	}
	packages.Visit(roots, nil, func(pk *packages.Package) {
		p.Packages[pk.PkgPath] = pk
		if pk.Module != nil && pk.Module.Main {
			p.ModPath = pk.Module.Path
			for _, e := range pk.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(roots, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	p.Prog = prog
	for _, sp := range prog.AllPackages() {
		p.Pkgs[sp.Pkg.Path()] = sp
	}
	// Only the bodies of the module and of the tokenizer library are needed.
	for path, sp := range p.Pkgs {
		if path == p.ModPath || strings.HasPrefix(path, p.ModPath+"/") ||
			strings.HasPrefix(path, "github.com/romshark/jscan") {
			sp.Build()
		}
	}
	p.Root = p.Pkgs[p.ModPath]
	if p.Root == nil {
		return nil, fmt.Errorf("root package not found")
	}
	p.Sizes = types.SizesFor("gc", arch)
	return p, nil
}

func dirExists(d string) bool {
	s, err := os.Stat(d)
	return err == nil && s.IsDir()
}

// InModule returns true if fn belongs to the module under analysis.
func (p *Program) InModule(fn *ssa.Function) bool {
	pk := fn.Package()
	for f := fn; pk == nil && f != nil; {
		if f.Origin() != nil {
			f = f.Origin()
		} else {
			f = f.Parent()
		}
		if f != nil {
			pk = f.Package()
		}
	}
	if pk == nil {
		return false
	}
	path := pk.Pkg.Path()
	return path == p.ModPath || strings.HasPrefix(path, p.ModPath+"/")
}

// PkgPath returns the import path of the package fn belongs to.
func PkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; {
		if f.Package() != nil {
			return f.Package().Pkg.Path()
		}
		if f.Origin() != nil && f.Origin() != f {
			f = f.Origin()
		} else {
			f = f.Parent()
		}
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

// Pos renders the position of an instruction.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// Instances returns the instantiations of the generic package function name.
func (p *Program) Instances(pkgPath, name string) []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.Prog) {
		if fn.Origin() != nil && fn.Origin() != fn && fn.Origin().Name() == name &&
			fn.Parent() == nil && PkgPath(fn) == pkgPath && fn.Blocks != nil {
			out = append(out, fn)
		}
	}
	return out
}

// IsGeneric returns true if fn is instantiated with type parameters.
func IsGeneric(fn *ssa.Function) bool {
	if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
		return true
	}
	for _, t := range fn.TypeArgs() {
		if _, ok := t.(*types.TypeParam); ok {
			return true
		}
	}
	return false
}

// AllFuncs returns all functions of the module in a fixed order.
func (p *Program) AllFuncs() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.Prog) {
		if p.InModule(fn) {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
