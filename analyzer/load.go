package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Program is the type-checked, SSA-lowered view of /repo's current source.
type Program struct {
	Root     string
	Fset     *token.FileSet
	Pkgs     []*packages.Package // packages of the repository
	Ecore    *packages.Package
	SSA      *ssa.Program
	EcoreSSA *ssa.Package
	Funcs    []*ssa.Function // non-mock functions, methods and closures with a body
	Init     *ssa.Function
	Named    []*types.Named // non-mock named types
	Decls    map[*types.Func]*ast.FuncDecl

	byObj     map[*types.Func]*ssa.Function
	implCache map[string][]*ssa.Function
	memo      map[string]any
	mm        *metamodel
}

const goToolchain = "/opt/veriftools/go1.23.12/bin"

func loadEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')+1]
		switch k {
		case "PATH=", "GOFLAGS=", "GOTOOLCHAIN=", "GOPROXY=", "GOENV=", "GOMODCACHE=", "GOCACHE=", "CGO_ENABLED=", "GOWORK=":
			continue
		}
		env = append(env, e)
	}
	path := os.Getenv("PATH")
	if _, err := os.Stat(goToolchain); err == nil {
		path = goToolchain + ":" + path
	}
	cache := os.Getenv("VERIF_GOCACHE")
	if cache == "" {
		cache = "/tmp/verif-gocache"
	}
	modcache := "/root/go/pkg/mod"
	return append(env, "PATH="+path, "GOFLAGS=-mod=mod -buildvcs=false", "GOTOOLCHAIN=local", "GOPROXY=off", "GOENV=off",
		"GOWORK=off", "GOMODCACHE="+modcache, "GOCACHE="+cache, "CGO_ENABLED=0")
}

func load(root string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  root,
		Fset: fset,
		Env:  loadEnv(),
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			own := strings.HasPrefix(filename, root+string(filepath.Separator))
			mode := parser.SkipObjectResolution | parser.ParseComments
			if !own {
				mode = parser.SkipObjectResolution
			}
			f, err := parser.ParseFile(fset, filename, src, mode)
			if f != nil && !own {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	pkgs, err := packages.Load(cfg, "./ecore")
	if err != nil {
		return nil, err
	}
	p := &Program{Root: root, Fset: fset, Pkgs: pkgs}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("type checking %s: %v", pk.PkgPath, e)
		}
		if strings.HasSuffix(pk.PkgPath, "/ecore") {
			p.Ecore = pk
		}
	}
	if p.Ecore == nil {
		return nil, fmt.Errorf("package ecore not found under %s", root)
	}
	p.memo = map[string]any{}
	p.buildSSA()
	return p, nil
}
