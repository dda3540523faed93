// Package rewrite turns a Go package into its simulated twin: every go
// statement, channel operation, select, mutex, timer, clock read and map
// iteration is redirected to dsim, yield points are inserted between
// statements, and accesses to shared memory are announced to dsim's
// happens-before tracker.  The program's behaviour is otherwise unchanged.
package rewrite

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type Pkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	EmbedFiles []string
	CgoFiles   []string
	Standard   bool
	Export     string
	Module     *struct {
		Path string
		Dir  string
		Main bool
	}
	Error *struct{ Err string }
}

// List runs go list -deps -export in dir.
func List(dir string, env []string, export bool, args ...string) ([]*Pkg, error) {
	a := []string{"list", "-e", "-deps", "-json=ImportPath,Dir,Name,GoFiles,EmbedFiles,CgoFiles,Standard,Export,Module,Error"}
	if export {
		a = append(a, "-export")
	}
	cmd := exec.Command("go", append(a, args...)...)
	cmd.Dir = dir
	cmd.Env = env
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	var ps []*Pkg
	d := json.NewDecoder(bytes.NewReader(out))
	for {
		var p Pkg
		if err := d.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		ps = append(ps, &p)
	}
	return ps, nil
}

// Checked is a type-checked package.
type Checked struct {
	P     *Pkg
	Fset  *token.FileSet
	Files []*ast.File
	Names []string
	Types *types.Package
	Info  *types.Info
}

type Loader struct {
	Fset    *token.FileSet
	exports map[string]string
	src     map[string]*types.Package
	imp     types.Importer
}

func NewLoader(ps []*Pkg) *Loader {
	l := &Loader{Fset: token.NewFileSet(), exports: map[string]string{}, src: map[string]*types.Package{}}
	for _, p := range ps {
		if p.Export != "" {
			l.exports[p.ImportPath] = p.Export
		}
	}
	l.imp = importer.ForCompiler(l.Fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := l.exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	return l
}

func (l *Loader) Import(path string) (*types.Package, error) {
	if p, ok := l.src[path]; ok {
		return p, nil
	}
	return l.imp.Import(path)
}

func (l *Loader) Check(p *Pkg, goVersion string) (*Checked, error) {
	c := &Checked{P: p, Fset: l.Fset}
	for _, n := range p.GoFiles {
		f, err := parser.ParseFile(l.Fset, filepath.Join(p.Dir, n), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		c.Files = append(c.Files, f)
		c.Names = append(c.Names, n)
	}
	c.Info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
		Scopes:     map[ast.Node]*types.Scope{},
		Instances:  map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: l, GoVersion: goVersion, Sizes: types.SizesFor("gc", "amd64")}
	tp, err := conf.Check(p.ImportPath, l.Fset, c.Files, c.Info)
	if err != nil {
		return nil, fmt.Errorf("type-check %s: %v", p.ImportPath, err)
	}
	c.Types = tp
	l.src[p.ImportPath] = tp
	return c, nil
}

func isUnder(path, mod string) bool { return path == mod || strings.HasPrefix(path, mod+"/") }
