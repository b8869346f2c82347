package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mmcloughlin/addchain"
const ndPath = modPath + "/zzverif/nd"

// Prog is the loaded program, shared by all workers.
type Prog struct {
	repo    string
	fset    *token.FileSet
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	globals map[*ssa.Global]int
	glist   []*ssa.Global
	embeds  map[*ssa.Global][]string // go:embed patterns

	mu   sync.Mutex
	fns  map[*ssa.Function]*cfn
	inst sync.Map
}

// harnessFiles returns overlay contents: every .go file of /verif/harness/X is
// placed at repo/zzverif/X.
func harnessOverlay(repo, harness string, only map[string]bool) (map[string][]byte, map[string]string, error) {
	ov := map[string][]byte{}
	repl := map[string]string{}
	err := filepath.Walk(harness, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(harness, path)
		top := strings.Split(rel, string(filepath.Separator))[0]
		if only != nil && !only[top] {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		dst := filepath.Join(repo, "zzverif", rel)
		ov[dst] = b
		repl[dst] = path
		return nil
	})
	return ov, repl, err
}

func loadEnv() []string {
	return append(os.Environ(), "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
}

func loadProg(repo string, ov map[string][]byte, patterns []string) (*Prog, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Overlay:    ov,
		Env:        loadEnv(),
		BuildFlags: []string{"-tags=purego,math_big_pure_go"},
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{repo: repo, fset: prog.Fset, prog: prog, pkgs: map[string]*ssa.Package{}, globals: map[*ssa.Global]int{}, fns: map[*ssa.Function]*cfn{}, embeds: map[*ssa.Global][]string{}}
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, sp := range all {
		p.pkgs[sp.Pkg.Path()] = sp
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := sp.Members[n].(*ssa.Global); ok {
				p.globals[g] = len(p.glist)
				p.glist = append(p.glist, g)
			}
		}
	}
	packages.Visit(ps, nil, func(pk *packages.Package) {
		sp := p.pkgs[pk.PkgPath]
		if sp == nil {
			return
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					doc := vs.Doc
					if doc == nil {
						doc = gd.Doc
					}
					if doc == nil {
						continue
					}
					for _, c := range doc.List {
						if rest, ok := strings.CutPrefix(c.Text, "//go:embed "); ok {
							g, _ := sp.Members[vs.Names[0].Name].(*ssa.Global)
							if g != nil {
								dir := filepath.Dir(p.fset.Position(f.Pos()).Filename)
								for _, pat := range strings.Fields(rest) {
									p.embeds[g] = append(p.embeds[g], dir+"\x00"+strings.Trim(pat, "\"`"))
								}
							}
						}
					}
				}
			}
		}
	})
	return p, nil
}
