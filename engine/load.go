package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Loaded struct {
	prog    *ssa.Program
	h       *ssa.Package
	modpath string
	repo    string
	fset    *token.FileSet
	srcHash string
}

const overlayDir = "zzverif"

func modPath(repo string) (string, error) {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(l[7:]), nil
		}
	}
	return "", fmt.Errorf("no module line in go.mod")
}

// overlayFiles maps virtual files below repo/zzverif to the harness sources.
func overlayFiles(repo, harness string) (map[string]string, error) {
	r := map[string]string{}
	for _, d := range []string{"sym", "h", "cmd"} {
		fs, err := filepath.Glob(filepath.Join(harness, d, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			r[filepath.Join(repo, overlayDir, d, filepath.Base(f))] = f
		}
	}
	return r, nil
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off")
}

func Load(repo, harness string) (*Loaded, error) {
	mp, err := modPath(repo)
	if err != nil {
		return nil, err
	}
	ov, err := overlayFiles(repo, harness)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for v, f := range ov {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		overlay[v] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Overlay: overlay,
		Env:     goEnv(),
	}
	ps, err := packages.Load(cfg, "./"+overlayDir+"/h")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	L := &Loaded{prog: prog, modpath: mp, repo: repo, fset: prog.Fset}
	for _, p := range ps {
		if strings.HasSuffix(p.PkgPath, "/"+overlayDir+"/h") {
			L.h = prog.Package(p.Types)
		}
	}
	if L.h == nil {
		return nil, fmt.Errorf("harness package not found")
	}
	// hash of the repository sources that were encoded
	var files []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, mp) && !strings.Contains(p.PkgPath, "/"+overlayDir+"/") {
			files = append(files, p.CompiledGoFiles...)
		}
	})
	sort.Strings(files)
	h := sha256.New()
	for _, f := range files {
		b, _ := os.ReadFile(f)
		fmt.Fprintf(h, "%s %d\n", f, len(b))
		h.Write(b)
	}
	L.srcHash = hex.EncodeToString(h.Sum(nil))[:16]
	return L, nil
}
