package rewrite

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/printer"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type Options struct {
	Race    bool            // announce shared-memory accesses
	Yields  bool            // yield between statements
	Light   bool            // yields only watch for endless loops
	Reset   bool            // emit a reset function for package state
	Module  string          // module path whose struct fields are tracked
	Observe map[string]bool // import path + function name to report to the harness
	GoLine  string          // e.g. "go1.21": language version of the rewritten file
}

type rw struct {
	c     *Checked
	o     Options
	used  bool // dsim used in this file
	n     int
	fn    string
	capt  map[types.Object]bool // captured and reassigned variables
	pkgv  map[types.Object]bool // package variables assigned inside functions
	inits []string
	keep  map[string]bool
}

func id(n string) *ast.Ident { return ast.NewIdent(n) }

func (r *rw) d(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: id("dsim"), Sel: id(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func str(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }

func (r *rw) tmp(p string) string { r.n++; return fmt.Sprintf("dsim%s%d", p, r.n) }

// Package rewrites a package; the result maps file name to source.
func Package(c *Checked, o Options) (map[string][]byte, error) {
	out := map[string][]byte{}
	r := &rw{c: c, o: o, pkgv: map[types.Object]bool{}}
	r.findPkgVars()

	// remember where each initialiser lives, so that the reset functions can
	// share its rewritten form
	type slot struct {
		vs *ast.ValueSpec
		i  int
		fi int
	}
	slots := map[ast.Expr]slot{}
	for fi, f := range c.Files {
		for _, dcl := range f.Decls {
			if gd, ok := dcl.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				for _, sp := range gd.Specs {
					vs := sp.(*ast.ValueSpec)
					for i, v := range vs.Values {
						slots[v] = slot{vs, i, fi}
					}
				}
			}
		}
	}
	fileUses := make([]bool, len(c.Files))
	var userInits []string
	for fi, f := range c.Files {
		r.used = false
		var decls []ast.Decl
		for _, dcl := range f.Decls {
			switch x := dcl.(type) {
			case *ast.FuncDecl:
				if x.Body == nil {
					decls = append(decls, x)
					continue
				}
				r.fn = x.Name.Name
				r.capt = r.captured(x)
				x.Type = r.typ(x.Type).(*ast.FuncType)
				if x.Recv != nil {
					r.fieldList(x.Recv)
				}
				isInit := x.Name.Name == "init" && x.Recv == nil
				y := r.o.Yields
				if isInit {
					r.o.Yields = false
				}
				x.Body = r.block(x.Body)
				r.o.Yields = y
				if isInit && o.Reset {
					n := fmt.Sprintf("dsimUserInit%d", len(userInits)+1)
					x.Name = id(n)
					decls = append(decls, mkFunc("init", &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(id(n))}}}))
					userInits = append(userInits, n)
				}
				decls = append(decls, x)
				if x.Recv == nil && o.Observe[c.P.ImportPath+"."+x.Name.Name] {
					decls = append(decls, r.observed(x))
				}
			case *ast.GenDecl:
				r.fn = "init"
				r.capt = map[types.Object]bool{}
				r.genDecl(x)
				decls = append(decls, x)
			default:
				decls = append(decls, dcl)
			}
		}
		f.Decls = decls
		fileUses[fi] = r.used
	}
	if o.Reset {
		var resets []string
		add := func(fi int, ss ...ast.Stmt) {
			name := fmt.Sprintf("dsimReset%d", len(resets)+1)
			resets = append(resets, name)
			c.Files[fi].Decls = append(c.Files[fi].Decls, mkFunc(name, &ast.BlockStmt{List: ss}))
		}
		for fi, f := range c.Files {
			for _, dcl := range f.Decls {
				gd, ok := dcl.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, sp := range gd.Specs {
					vs := sp.(*ast.ValueSpec)
					if len(vs.Values) > 0 || vs.Type == nil {
						continue
					}
					for _, n := range vs.Names {
						if n.Name != "_" {
							add(fi,
								&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("dsimZ")}, Type: vs.Type}}}},
								&ast.AssignStmt{Lhs: []ast.Expr{id(n.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id("dsimZ")}})
						}
					}
				}
			}
		}
		for _, in := range c.Info.InitOrder {
			var lhs []ast.Expr
			skip := true
			for _, v := range in.Lhs {
				lhs = append(lhs, id(v.Name()))
				if v.Name() != "_" {
					skip = false
				}
			}
			sl, ok := slots[in.Rhs]
			if skip || !ok {
				continue
			}
			add(sl.fi, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{sl.vs.Values[sl.i]}})
		}
		resets = append(resets, userInits...)
		if len(resets) > 0 {
			last := len(c.Files) - 1
			var ss []ast.Stmt
			for _, n := range resets {
				ss = append(ss, &ast.ExprStmt{X: call(id(n))})
			}
			lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: ss}}
			args := []ast.Expr{str(c.P.ImportPath), lit}
			var vars, olds []ast.Expr
			for _, f := range c.Files {
				for _, dcl := range f.Decls {
					gd, ok := dcl.(*ast.GenDecl)
					if !ok || gd.Tok != token.VAR {
						continue
					}
					for _, sp := range gd.Specs {
						for _, n := range sp.(*ast.ValueSpec).Names {
							if n.Name != "_" && !strings.HasPrefix(n.Name, "dsim") {
								vars = append(vars, id(n.Name))
								olds = append(olds, id(fmt.Sprintf("dsimOld%d", len(olds)+1)))
							}
						}
					}
				}
			}
			if len(vars) > 0 {
				// func() func() { old := vars; return func() { vars = old } }
				inner := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: vars, Tok: token.ASSIGN, Rhs: olds}}}}
				args = append(args, &ast.FuncLit{
					Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: &ast.FuncType{Params: &ast.FieldList{}}}}}},
					Body: &ast.BlockStmt{List: []ast.Stmt{
						&ast.AssignStmt{Lhs: olds, Tok: token.DEFINE, Rhs: vars},
						&ast.ReturnStmt{Results: []ast.Expr{inner}},
					}}})
			}
			c.Files[last].Decls = append(c.Files[last].Decls, mkFunc("init", &ast.BlockStmt{List: []ast.Stmt{
				&ast.ExprStmt{X: call(r.d("OnReset"), args...)}}}))
			fileUses[last] = true
		}
	}
	for fi, f := range c.Files {
		r.used = fileUses[fi]
		src, err := r.print(f)
		if err != nil {
			return nil, err
		}
		out[c.Names[fi]] = src
	}
	return out, nil
}

// observed renames x and returns a wrapper of its old name that tells the
// harness about calls and results.
func (r *rw) observed(x *ast.FuncDecl) *ast.FuncDecl {
	name := x.Name.Name
	x.Name = id("dsimObserved" + name)
	ft := &ast.FuncType{Params: &ast.FieldList{}, Results: x.Type.Results}
	inner := &ast.CallExpr{Fun: id(x.Name.Name)}
	what := []ast.Expr{str(r.c.Types.Name() + "." + name + ":call")}
	n := 0
	for _, f := range x.Type.Params.List {
		k := len(f.Names)
		if k == 0 {
			k = 1
		}
		for i := 0; i < k; i++ {
			pn := fmt.Sprintf("p%d", n)
			n++
			ft.Params.List = append(ft.Params.List, &ast.Field{Names: []*ast.Ident{id(pn)}, Type: f.Type})
			inner.Args = append(inner.Args, id(pn))
			what = append(what, id(pn))
			if _, ok := f.Type.(*ast.Ellipsis); ok {
				inner.Ellipsis = 1
			}
		}
	}
	var body []ast.Stmt
	body = append(body, &ast.ExprStmt{X: call(r.d("Observe"), what...)})
	var lhs []ast.Expr
	res := []ast.Expr{str(r.c.Types.Name() + "." + name + ":ret")}
	if x.Type.Results != nil {
		for i := 0; i < x.Type.Results.NumFields(); i++ {
			lhs = append(lhs, id(fmt.Sprintf("r%d", i)))
			res = append(res, id(fmt.Sprintf("r%d", i)))
		}
	}
	body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{inner}},
		&ast.ExprStmt{X: call(r.d("Observe"), res...)}, &ast.ReturnStmt{Results: lhs})
	return &ast.FuncDecl{Name: id(name), Type: ft, Body: &ast.BlockStmt{List: body}}
}

func mkFunc(name string, b *ast.BlockStmt) *ast.FuncDecl {
	return &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: b}
}

func (r *rw) print(f *ast.File) ([]byte, error) {
	// imports: drop those no longer used, add dsim
	usedNames := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if se, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := se.X.(*ast.Ident); ok {
				usedNames[x.Name] = true
			}
		}
		return true
	})
	var directives []string
	for _, cg := range f.Comments {
		if cg.Pos() < f.Package {
			for _, cm := range cg.List {
				if strings.HasPrefix(cm.Text, "//go:build") {
					directives = append(directives, strings.TrimPrefix(cm.Text, "//go:build "))
				}
			}
		}
	}
	f.Comments = nil
	f.Doc = nil
	stripDocs(f)
	var specs []ast.Spec
	var rest []ast.Decl
	for _, dcl := range f.Decls {
		gd, ok := dcl.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			rest = append(rest, dcl)
			continue
		}
		for _, sp := range gd.Specs {
			is := sp.(*ast.ImportSpec)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			} else if obj := r.c.Info.Implicits[is]; obj != nil {
				name = obj.Name()
			}
			if name != "_" && name != "." && name != "" && !usedNames[name] {
				// used before rewriting: keep it for its initialisation only
				is = &ast.ImportSpec{Name: id("_"), Path: is.Path}
			}
			specs = append(specs, is)
		}
	}
	if r.used {
		specs = append(specs, &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif.local/sim/dsim"`}})
	}
	var b bytes.Buffer
	cons := r.o.GoLine
	for _, dd := range directives {
		if cons != "" {
			cons += " && (" + dd + ")"
		} else {
			cons = dd
		}
	}
	if cons != "" {
		fmt.Fprintf(&b, "//go:build %s\n\n", cons)
	}
	fmt.Fprintf(&b, "package %s\n\n", f.Name.Name)
	if len(specs) > 0 {
		b.WriteString("import (\n")
		for _, sp := range specs {
			is := sp.(*ast.ImportSpec)
			b.WriteString("\t")
			if is.Name != nil {
				b.WriteString(is.Name.Name + " ")
			}
			b.WriteString(is.Path.Value + "\n")
		}
		b.WriteString(")\n\n")
	}
	cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
	for _, dcl := range rest {
		if err := cfg.Fprint(&b, token.NewFileSet(), dcl); err != nil {
			return nil, err
		}
		b.WriteString("\n\n")
	}
	return b.Bytes(), nil
}

func stripDocs(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

// ---- analysis

func (r *rw) findPkgVars() {
	for _, f := range r.c.Files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				mark := func(e ast.Expr) {
					if x, ok := ast.Unparen(e).(*ast.Ident); ok {
						if v, ok := r.c.Info.Uses[x].(*types.Var); ok && v.Parent() == r.c.Types.Scope() {
							r.pkgv[v] = true
						}
					}
				}
				switch x := n.(type) {
				case *ast.AssignStmt:
					for _, l := range x.Lhs {
						mark(l)
					}
				case *ast.IncDecStmt:
					mark(x.X)
				}
				return true
			})
		}
	}
}

// captured finds local variables of fd that are used inside a function literal
// other than the function that declares them, and are assigned after their
// declaration.
func (r *rw) captured(fd *ast.FuncDecl) map[types.Object]bool {
	capt := map[types.Object]bool{}
	assigned := map[types.Object]bool{}
	owner := map[types.Object]ast.Node{}
	var stack []ast.Node
	stack = append(stack, fd)
	top := func() ast.Node { return stack[len(stack)-1] }
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil {
				return true
			}
			switch x := m.(type) {
			case *ast.FuncLit:
				if m != n {
					stack = append(stack, x)
					walk(x)
					stack = stack[:len(stack)-1]
					return false
				}
			case *ast.Ident:
				if o := r.c.Info.Defs[x]; o != nil {
					if _, ok := o.(*types.Var); ok {
						owner[o] = top()
					}
				}
				if o, ok := r.c.Info.Uses[x].(*types.Var); ok && !o.IsField() {
					if ow, ok := owner[o]; ok && ow != top() {
						capt[o] = true
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if i, ok := ast.Unparen(l).(*ast.Ident); ok {
						if o := r.c.Info.Uses[i]; o != nil {
							assigned[o] = true
						}
					}
				}
			case *ast.IncDecStmt:
				if i, ok := ast.Unparen(x.X).(*ast.Ident); ok {
					if o := r.c.Info.Uses[i]; o != nil {
						assigned[o] = true
					}
				}
			case *ast.RangeStmt:
				for _, l := range []ast.Expr{x.Key, x.Value} {
					if i, ok := l.(*ast.Ident); ok {
						if o := r.c.Info.Defs[i]; o != nil {
							assigned[o] = true
						}
					}
				}
			}
			return true
		})
	}
	if fd.Recv != nil {
		walk(fd.Recv)
	}
	walk(fd.Type)
	walk(fd.Body)
	res := map[types.Object]bool{}
	for o := range capt {
		if assigned[o] && trackable(o.Type()) {
			res[o] = true
		}
	}
	return res
}

// trackable excludes synchronisation types, whose own methods synchronise.
func trackable(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return false
		}
	}
	if a, ok := t.(*types.Alias); ok {
		return trackable(types.Unalias(a))
	}
	return true
}

func (r *rw) site(name string) string {
	return r.c.Types.Name() + "." + name + "@" + r.fn
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.c.Info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.c.Info.ObjectOf(i); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}
func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// replaceable qualified identifiers
var subst = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Cond": "Cond", "NewCond": "NewCond",
		"Locker": "Locker", "Map": "Map", "Pool": "Pool", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"},
	"time": {"Now": "Clock", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After", "AfterFunc": "AfterFunc",
		"NewTimer": "NewTimer", "NewTicker": "NewTicker", "Tick": "Tick", "Timer": "Timer", "Ticker": "Ticker"},
	"os":      {"Exit": "Exit"},
	"runtime": {"Gosched": "Y"},
}

func (r *rw) pkgSel(x *ast.SelectorExpr) (pkg, name string, ok bool) {
	i, isId := x.X.(*ast.Ident)
	if !isId {
		return
	}
	pn, isPkg := r.c.Info.Uses[i].(*types.PkgName)
	if !isPkg {
		return
	}
	return pn.Imported().Path(), x.Sel.Name, true
}

// ---- types

func (r *rw) typ(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.SelectorExpr:
		if p, n, ok := r.pkgSel(x); ok {
			if s, ok := subst[p][n]; ok {
				return r.d(s)
			}
		}
		return x
	case *ast.StarExpr:
		x.X = r.typ(x.X)
	case *ast.ParenExpr:
		x.X = r.typ(x.X)
	case *ast.ArrayType:
		x.Elt = r.typ(x.Elt)
	case *ast.MapType:
		x.Key, x.Value = r.typ(x.Key), r.typ(x.Value)
	case *ast.ChanType:
		x.Value = r.typ(x.Value)
	case *ast.Ellipsis:
		x.Elt = r.typ(x.Elt)
	case *ast.FuncType:
		r.fieldList(x.Params)
		r.fieldList(x.Results)
	case *ast.StructType:
		r.fieldList(x.Fields)
	case *ast.InterfaceType:
		r.fieldList(x.Methods)
	}
	return e
}

func (r *rw) fieldList(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = r.typ(f.Type)
	}
}

func (r *rw) genDecl(g *ast.GenDecl) {
	for _, sp := range g.Specs {
		switch s := sp.(type) {
		case *ast.TypeSpec:
			s.Type = r.typ(s.Type)
		case *ast.ValueSpec:
			if len(s.Names) == 2 && len(s.Values) == 1 {
				if ne, ok := r.commaOk(s.Values[0]); ok {
					s.Type = r.typ(s.Type)
					s.Values[0] = ne
					continue
				}
			}
			s.Type = r.typ(s.Type)
			if g.Tok != token.CONST {
				for i := range s.Values {
					s.Values[i] = r.expr(s.Values[i])
				}
			}
		}
	}
}

// ---- expressions

func (r *rw) isType(e ast.Expr) bool {
	tv, ok := r.c.Info.Types[e]
	return ok && tv.IsType()
}

func (r *rw) exprs(es []ast.Expr) {
	for i := range es {
		es[i] = r.expr(es[i])
	}
}

// repoField reports whether sel selects a struct field declared in the module
// under test (or any field, for addressable operands) that is worth tracking.
func (r *rw) fieldSel(x *ast.SelectorExpr) bool {
	s := r.c.Info.Selections[x]
	if s == nil || s.Kind() != types.FieldVal {
		return false
	}
	v := s.Obj().(*types.Var)
	if v.Pkg() == nil || !isUnder(v.Pkg().Path(), r.o.Module) {
		return false
	}
	return trackable(v.Type())
}

func (r *rw) fieldSite(x *ast.SelectorExpr) string {
	s := r.c.Info.Selections[x]
	t := s.Recv()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n := types.TypeString(t, func(*types.Package) string { return "" })
	if len(n) > 40 {
		n = "struct"
	}
	return n + "." + x.Sel.Name
}

// addressable reports whether &e is legal.
func (r *rw) addressable(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		_, ok := r.c.Info.ObjectOf(x).(*types.Var)
		return ok
	case *ast.SelectorExpr:
		if _, _, ok := r.pkgSel(x); ok {
			_, isv := r.c.Info.Uses[x.Sel].(*types.Var)
			return isv
		}
		s := r.c.Info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		if t := r.typeOf(x.X); t != nil {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				return true
			}
		}
		// promotion through an embedded pointer
		if s.Indirect() {
			return true
		}
		return r.addressable(x.X)
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		if t == nil {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Array:
			return r.addressable(x.X)
		case *types.Pointer:
			_, ok := u.Elem().Underlying().(*types.Array)
			return ok
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

// tracked reports whether e denotes shared memory whose accesses are announced.
func (r *rw) tracked(e ast.Expr) (string, bool) {
	if !r.o.Race {
		return "", false
	}
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		v, ok := r.c.Info.Uses[x].(*types.Var)
		if !ok {
			return "", false
		}
		if r.capt[v] || r.pkgv[v] && trackable(v.Type()) {
			return r.site(x.Name), true
		}
	case *ast.SelectorExpr:
		if r.fieldSel(x) && r.addressable(x) {
			return r.site(r.fieldSite(x)), true
		}
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		if t == nil {
			return "", false
		}
		if sl, ok := t.Underlying().(*types.Slice); ok && trackable(sl.Elem()) {
			return r.site("elem:" + exprName(x.X)), true
		}
	}
	return "", false
}

func exprName(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return x.Sel.Name
	}
	return "slice"
}

// place rewrites e as a location (operand of &, or the base of a selection),
// without announcing an access to the location itself.
func (r *rw) place(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.place(x.X)
		return x
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		if _, _, ok := r.pkgSel(x); ok {
			return x
		}
		x.X = r.base(x.X)
		return x
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		x.Index = r.expr(x.Index)
		if t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				x.X = r.place(x.X)
				return x
			}
			if isMap(t) {
				x.X = r.mapOp(x.X, "MR")
				return x
			}
		}
		x.X = r.expr(x.X)
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	}
	return r.expr(e)
}

// base rewrites the operand of a field selection: a pointer is read, a struct
// is a place.
func (r *rw) base(e ast.Expr) ast.Expr {
	t := r.typeOf(e)
	if t != nil {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return r.expr(e)
		}
	}
	if r.addressable(e) {
		return r.place(e)
	}
	return r.expr(e)
}

func (r *rw) mapOp(m ast.Expr, op string) ast.Expr {
	name := exprName(m)
	m = r.expr(m)
	if !r.o.Race {
		return m
	}
	return call(r.d(op), m, str(r.site("map:"+name)))
}

func (r *rw) access(e ast.Expr, fn, site string) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: call(r.d(fn), &ast.UnaryExpr{Op: token.AND, X: e}, str(site))}}
}

func (r *rw) commaOk(e ast.Expr) (ast.Expr, bool) {
	switch x := ast.Unparen(e).(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(r.d("Recv2"), r.expr(x.X)), true
		}
	}
	return nil, false
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if r.isType(e) {
		return r.typ(e)
	}
	if tv, ok := r.c.Info.Types[e]; ok && tv.Value != nil {
		return e // constant
	}
	if site, ok := r.tracked(e); ok {
		return r.access(r.place(ast.Unparen(e)), "R", site)
	}
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.FuncLit:
		x.Type = r.typ(x.Type).(*ast.FuncType)
		x.Body = r.block(x.Body)
		return x
	case *ast.CompositeLit:
		x.Type = r.typ(x.Type)
		t := r.typeOf(x)
		isStruct := false
		if t != nil {
			u := t.Underlying()
			if p, ok := u.(*types.Pointer); ok {
				u = p.Elem().Underlying()
			}
			_, isStruct = u.(*types.Struct)
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
		return x
	case *ast.SelectorExpr:
		if p, n, ok := r.pkgSel(x); ok {
			if s, ok := subst[p][n]; ok {
				return r.d(s)
			}
			return x
		}
		s := r.c.Info.Selections[x]
		if s == nil {
			return x
		}
		if s.Kind() == types.MethodExpr {
			x.X = r.typ(x.X)
			return x
		}
		if s.Kind() == types.MethodVal {
			return r.methodSel(x, s)
		}
		x.X = r.base(x.X)
		return x
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		if t == nil {
			return x
		}
		if _, ok := t.Underlying().(*types.Signature); ok {
			return x
		}
		x.Index = r.expr(x.Index)
		if isMap(t) {
			x.X = r.mapOp(x.X, "MR")
			return x
		}
		if _, ok := t.Underlying().(*types.Array); ok && r.addressable(x.X) {
			x.X = r.place(x.X)
			return x
		}
		x.X = r.expr(x.X)
		return x
	case *ast.IndexListExpr:
		return x
	case *ast.SliceExpr:
		t := r.typeOf(x.X)
		if _, ok := t.Underlying().(*types.Array); ok {
			x.X = r.place(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		x.Type = r.typ(x.Type)
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		if r.o.Race {
			if t := r.typeOf(e); t != nil && trackable(t) {
				return &ast.ParenExpr{X: &ast.StarExpr{X: call(r.d("R"), x.X, str(r.site("deref")))}}
			}
		}
		return x
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			if _, ok := ast.Unparen(x.X).(*ast.CompositeLit); ok {
				x.X = r.expr(x.X)
			} else {
				x.X = r.place(x.X)
			}
			return x
		case token.ARROW:
			return call(r.d("Recv"), r.expr(x.X))
		}
		x.X = r.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
		return x
	case *ast.KeyValueExpr:
		x.Value = r.expr(x.Value)
		return x
	case *ast.CallExpr:
		return r.call(x)
	case *ast.Ellipsis:
		return r.typ(x)
	}
	return e
}

var cellBufWrites = map[string]bool{"SetContent": true, "Resize": true, "Fill": true, "Invalidate": true, "SetDirty": true}

func (r *rw) methodSel(x *ast.SelectorExpr, s *types.Selection) ast.Expr {
	ptrRecv := false
	if f, ok := s.Obj().(*types.Func); ok {
		if rv := f.Type().(*types.Signature).Recv(); rv != nil {
			_, ptrRecv = rv.Type().Underlying().(*types.Pointer)
			if _, isIface := rv.Type().Underlying().(*types.Interface); isIface {
				ptrRecv = false
			}
		}
	}
	t := r.typeOf(x.X)
	isPtr := false
	if t != nil {
		_, isPtr = t.Underlying().(*types.Pointer)
	}
	if ptrRecv && !isPtr && r.addressable(x.X) {
		// implicit &x.X
		if site, ok := r.tracked(x.X); ok && t != nil && strings.HasSuffix(t.String(), "tcell.CellBuffer") {
			fn := "R"
			if cellBufWrites[x.Sel.Name] {
				fn = "W"
			}
			p := r.place(ast.Unparen(x.X))
			x.X = call(r.d(fn), &ast.UnaryExpr{Op: token.AND, X: p}, str(site))
			return x
		}
		x.X = r.place(x.X)
		return x
	}
	x.X = r.expr(x.X)
	return x
}

func (r *rw) call(x *ast.CallExpr) ast.Expr {
	if tv, ok := r.c.Info.Types[x.Fun]; ok && tv.IsType() {
		x.Fun = r.typ(x.Fun)
		if _, bad := x.Fun.(*ast.FuncType); bad {
			x.Fun = &ast.ParenExpr{X: x.Fun}
		}
		r.exprs(x.Args)
		return x
	}
	if i, ok := ast.Unparen(x.Fun).(*ast.Ident); ok {
		if b, ok := r.c.Info.Uses[i].(*types.Builtin); ok {
			switch b.Name() {
			case "close":
				return call(r.d("Close"), r.expr(x.Args[0]))
			case "delete":
				x.Args[0] = r.mapOp(x.Args[0], "MW")
				x.Args[1] = r.expr(x.Args[1])
				return x
			case "clear":
				if isMap(r.typeOf(x.Args[0])) {
					x.Args[0] = r.mapOp(x.Args[0], "MW")
					return x
				}
			case "len":
				if isMap(r.typeOf(x.Args[0])) {
					x.Args[0] = r.mapOp(x.Args[0], "MR")
					return x
				}
			case "new", "make":
				x.Args[0] = r.typ(x.Args[0])
				for j := 1; j < len(x.Args); j++ {
					x.Args[j] = r.expr(x.Args[j])
				}
				return x
			}
			r.exprs(x.Args)
			return x
		}
	}
	// sync/atomic: order atomics through dsim
	if r.isAtomicCall(x) {
		r.callParts(x)
		if tv, ok := r.c.Info.Types[ast.Expr(x)]; ok && tv.Type != nil {
			if tup, isTup := tv.Type.(*types.Tuple); !isTup || tup.Len() == 1 {
				if !isTup {
					return call(r.d("Atomic"), x)
				}
			}
		}
		return x
	}
	r.callParts(x)
	return x
}

func (r *rw) callParts(x *ast.CallExpr) {
	x.Fun = r.expr(x.Fun)
	r.exprs(x.Args)
}

func (r *rw) isAtomicCall(x *ast.CallExpr) bool {
	se, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr)
	if !ok {
		return false
	}
	if p, _, ok := r.pkgSel(se); ok {
		return p == "sync/atomic"
	}
	if s := r.c.Info.Selections[se]; s != nil && s.Obj().Pkg() != nil {
		return s.Obj().Pkg().Path() == "sync/atomic"
	}
	return false
}

func hasCall(r *rw, es ...ast.Expr) bool {
	found := false
	for _, e := range es {
		if e == nil {
			continue
		}
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.CallExpr:
				if tv, ok := r.c.Info.Types[x.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
					return true
				}
				found = true
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					found = true
				}
			}
			return true
		})
	}
	return found
}

// ---- statements

func (r *rw) y() ast.Stmt {
	if r.o.Light {
		return &ast.ExprStmt{X: call(r.d("Watch"))}
	}
	return &ast.ExprStmt{X: call(r.d("Y"))}
}

func (r *rw) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	b.List = r.stmts(b.List)
	return b
}

func (r *rw) stmts(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if r.o.Yields {
			switch s.(type) {
			case *ast.DeclStmt, *ast.EmptyStmt, *ast.LabeledStmt:
			default:
				out = append(out, r.y())
			}
			if _, ok := s.(*ast.LabeledStmt); ok {
				out = append(out, r.y())
			}
		}
		out = append(out, r.stmt(s)...)
	}
	return out
}

func (r *rw) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	ss := r.stmtInline(s)
	return ss
}

// stmtInline rewrites a simple statement in a position that admits only one.
func (r *rw) stmtInline(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.AssignStmt:
		return r.assign(x, true)[0]
	case *ast.IncDecStmt:
		return r.incdec(x)
	case *ast.SendStmt:
		return r.send(x)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
		return x
	}
	return s
}

func (r *rw) send(x *ast.SendStmt) ast.Stmt {
	return &ast.ExprStmt{X: call(call(r.d("SendTo"), r.expr(x.Chan)), r.expr(x.Value))}
}

func (r *rw) incdec(x *ast.IncDecStmt) ast.Stmt {
	x.X = r.lhsInline(x.X)
	return x
}

func (r *rw) lhsInline(e ast.Expr) ast.Expr {
	u := ast.Unparen(e)
	if i, ok := u.(*ast.Ident); ok && i.Name == "_" {
		return e
	}
	if ix, ok := u.(*ast.IndexExpr); ok && isMap(r.typeOf(ix.X)) {
		ix.Index = r.expr(ix.Index)
		ix.X = r.mapOp(ix.X, "MW")
		return ix
	}
	if site, ok := r.tracked(u); ok {
		return r.access(r.place(u), "W", site)
	}
	if st, ok := u.(*ast.StarExpr); ok && r.o.Race {
		if t := r.typeOf(u); t != nil && trackable(t) {
			st.X = call(r.d("W"), r.expr(st.X), str(r.site("deref")))
			return st
		}
	}
	return r.place(e)
}

func (r *rw) assign(x *ast.AssignStmt, inline bool) []ast.Stmt {
	if x.Tok == token.DEFINE {
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if ne, ok := r.commaOk(x.Rhs[0]); ok {
				x.Rhs[0] = ne
				return []ast.Stmt{x}
			}
		}
		// redeclared captured variables are written too
		var post []ast.Stmt
		if !inline && r.o.Race {
			for _, l := range x.Lhs {
				if i, ok := l.(*ast.Ident); ok && r.c.Info.Defs[i] == nil {
					if site, ok := r.tracked(i); ok {
						post = append(post, &ast.ExprStmt{X: call(r.d("W"), &ast.UnaryExpr{Op: token.AND, X: id(i.Name)}, str(site))})
					}
				}
			}
		}
		r.exprs(x.Rhs)
		return append([]ast.Stmt{x}, post...)
	}
	rhsCalls := hasCall(r, x.Rhs...)
	lhsCalls := hasCall(r, x.Lhs...)
	if !inline && r.o.Race && rhsCalls && !lhsCalls && len(x.Lhs) == 1 {
		// announce the write after the right-hand side has run
		if st := r.afterWrite(x.Lhs[0]); st != nil {
			x.Lhs[0] = r.place(x.Lhs[0])
			r.rhs(x)
			return []ast.Stmt{x, st}
		}
	}
	for i := range x.Lhs {
		x.Lhs[i] = r.lhsInline(x.Lhs[i])
	}
	r.rhs(x)
	return []ast.Stmt{x}
}

func (r *rw) rhs(x *ast.AssignStmt) {
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if ne, ok := r.commaOk(x.Rhs[0]); ok {
			x.Rhs[0] = ne
			return
		}
	}
	r.exprs(x.Rhs)
}

// afterWrite builds the announcement of a write to e, to run after it.
func (r *rw) afterWrite(e ast.Expr) ast.Stmt {
	u := ast.Unparen(e)
	if ix, ok := u.(*ast.IndexExpr); ok && isMap(r.typeOf(ix.X)) {
		// re-evaluate the map operand
		cp := r.plain(ix.X)
		if cp == nil {
			return nil
		}
		return &ast.ExprStmt{X: call(r.d("MW"), cp, str(r.site("map:"+exprName(ix.X))))}
	}
	if site, ok := r.tracked(u); ok {
		cp := r.plain(u)
		if cp == nil {
			return nil
		}
		return &ast.ExprStmt{X: call(r.d("W"), &ast.UnaryExpr{Op: token.AND, X: cp}, str(site))}
	}
	return nil
}

// plain deep-copies a call-free expression without instrumentation.
func (r *rw) plain(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return id(x.Name)
	case *ast.BasicLit:
		return &ast.BasicLit{Kind: x.Kind, Value: x.Value}
	case *ast.ParenExpr:
		if y := r.plain(x.X); y != nil {
			return &ast.ParenExpr{X: y}
		}
	case *ast.SelectorExpr:
		if y := r.plain(x.X); y != nil {
			return &ast.SelectorExpr{X: y, Sel: id(x.Sel.Name)}
		}
	case *ast.StarExpr:
		if y := r.plain(x.X); y != nil {
			return &ast.StarExpr{X: y}
		}
	case *ast.IndexExpr:
		a, b := r.plain(x.X), r.plain(x.Index)
		if a != nil && b != nil {
			return &ast.IndexExpr{X: a, Index: b}
		}
	}
	return nil
}

func (r *rw) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BadStmt, *ast.EmptyStmt, *ast.BranchStmt:
		return []ast.Stmt{s}
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
		return []ast.Stmt{x}
	case *ast.SendStmt:
		return []ast.Stmt{r.send(x)}
	case *ast.IncDecStmt:
		return []ast.Stmt{r.incdec(x)}
	case *ast.AssignStmt:
		return r.assign(x, false)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			r.genDecl(g)
		}
		return []ast.Stmt{x}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		if c, ok := r.expr(x.Call).(*ast.CallExpr); ok {
			x.Call = c
		}
		return []ast.Stmt{x}
	case *ast.ReturnStmt:
		r.exprs(x.Results)
		return []ast.Stmt{x}
	case *ast.BlockStmt:
		return []ast.Stmt{r.block(x)}
	case *ast.IfStmt:
		x.Init = r.one(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Body = r.block(x.Body)
		if x.Else != nil {
			x.Else = r.stmt(x.Else)[0]
		}
		return []ast.Stmt{x}
	case *ast.CaseClause:
		r.exprs(x.List)
		x.Body = r.stmts(x.Body)
		return []ast.Stmt{x}
	case *ast.SwitchStmt:
		x.Init = r.one(x.Init)
		x.Tag = r.expr(x.Tag)
		for i := range x.Body.List {
			x.Body.List[i] = r.stmt(x.Body.List[i])[0]
		}
		return []ast.Stmt{x}
	case *ast.TypeSwitchStmt:
		x.Init = r.one(x.Init)
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		}
		for i := range x.Body.List {
			cc := x.Body.List[i].(*ast.CaseClause)
			for j := range cc.List {
				cc.List[j] = r.typ(cc.List[j])
			}
			cc.Body = r.stmts(cc.Body)
		}
		return []ast.Stmt{x}
	case *ast.ForStmt:
		x.Init = r.one(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.one(x.Post)
		x.Body = r.block(x.Body)
		if len(x.Body.List) == 0 || !r.o.Yields {
			x.Body.List = append([]ast.Stmt{r.y()}, x.Body.List...)
		}
		return []ast.Stmt{x}
	case *ast.RangeStmt:
		return r.rangeStmt(x, nil)
	case *ast.SelectStmt:
		return r.selectStmt(x, nil)
	case *ast.LabeledStmt:
		switch y := x.Stmt.(type) {
		case *ast.RangeStmt:
			return r.rangeStmt(y, x.Label)
		case *ast.SelectStmt:
			return r.selectStmt(y, x.Label)
		}
		inner := r.stmt(x.Stmt)
		x.Stmt = inner[0]
		return append([]ast.Stmt{x}, inner[1:]...)
	}
	return []ast.Stmt{s}
}

func label(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: l, Stmt: s}
}

func define(n string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

func (r *rw) goStmt(x *ast.GoStmt) []ast.Stmt {
	c := x.Call
	name := r.c.Types.Name() + "." + r.fn
	if len(c.Args) == 0 {
		if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok {
			f := r.expr(fl)
			return []ast.Stmt{&ast.ExprStmt{X: call(r.d("Go"), str(name), f)}}
		}
	}
	if i, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if _, ok := r.c.Info.Uses[i].(*types.Builtin); ok {
			e := r.expr(c)
			lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}}
			return []ast.Stmt{&ast.ExprStmt{X: call(r.d("Go"), str(name), lit)}}
		}
	}
	var pre []ast.Stmt
	fn := r.tmp("F")
	if se, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr); ok {
		name = r.c.Types.Name() + "." + se.Sel.Name
	} else if i, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		name = r.c.Types.Name() + "." + i.Name
	}
	pre = append(pre, define(fn, r.expr(c.Fun)))
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		tv := r.c.Info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args[i] = r.expr(a)
			continue
		}
		n := r.tmp("A")
		pre = append(pre, define(n, r.expr(a)))
		args[i] = id(n)
	}
	inner := &ast.CallExpr{Fun: id(fn), Args: args, Ellipsis: 0}
	if c.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	pre = append(pre, &ast.ExprStmt{X: call(r.d("Go"), str(name), lit)})
	return []ast.Stmt{&ast.BlockStmt{List: pre}}
}

func blank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return e == nil || ok && i.Name == "_"
}

func (r *rw) rangeStmt(x *ast.RangeStmt, lbl *ast.Ident) []ast.Stmt {
	t := r.typeOf(x.X)
	switch {
	case isChan(t):
		cv, ok := r.tmp("C"), r.tmp("Ok")
		pre := define(cv, r.expr(x.X))
		rc := func() ast.Expr { return call(r.d("Recv2"), id(cv)) }
		body := r.block(x.Body)
		v := ast.Expr(id("_"))
		if !blank(x.Key) {
			v = x.Key
		}
		var list []ast.Stmt
		list = append(list, pre)
		tok := token.DEFINE
		if !blank(x.Key) && x.Tok == token.ASSIGN {
			list = append(list, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(ok)}, Type: id("bool")}}}})
			tok = token.ASSIGN
		}
		f := &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{v, id(ok)}, Tok: tok, Rhs: []ast.Expr{rc()}},
			Cond: id(ok),
			Post: &ast.AssignStmt{Lhs: []ast.Expr{v, id(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{rc()}},
			Body: body,
		}
		list = append(list, label(lbl, f))
		return []ast.Stmt{&ast.BlockStmt{List: list}}
	case isMap(t):
		mv, kv, ok := r.tmp("M"), r.tmp("K"), r.tmp("Ok")
		mname := exprName(x.X)
		list := []ast.Stmt{define(mv, r.expr(x.X))}
		mread := func() ast.Expr {
			if r.o.Race {
				return call(r.d("MR"), id(mv), str(r.site("map:"+mname)))
			}
			return id(mv)
		}
		declare := x.Tok == token.DEFINE
		var inits []ast.Stmt
		// old per-loop variable semantics: declare once, outside the loop
		if declare {
			mt := t.Underlying().(*types.Map)
			_ = mt
			if !blank(x.Key) {
				inits = append(inits, define(x.Key.(*ast.Ident).Name, call(r.d("ZeroKey"), id(mv))))
				inits = append(inits, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(x.Key.(*ast.Ident).Name)}})
			}
			if !blank(x.Value) {
				inits = append(inits, define(x.Value.(*ast.Ident).Name, call(r.d("ZeroVal"), id(mv))))
				inits = append(inits, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(x.Value.(*ast.Ident).Name)}})
			}
		}
		list = append(list, inits...)
		body := r.block(x.Body)
		vv := r.tmp("V")
		head := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{id(vv), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: mread(), Index: id(kv)}}},
			&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(vv)}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
		}
		asg := func(l ast.Expr, v string) {
			if blank(l) {
				return
			}
			if declare {
				head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{id(l.(*ast.Ident).Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
				return
			}
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{r.lhsInline(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
		}
		asg(x.Key, kv)
		asg(x.Value, vv)
		body.List = append(head, body.List...)
		rs := &ast.RangeStmt{Key: id("_"), Value: id(kv), Tok: token.DEFINE, X: call(r.d("Keys"), mread()), Body: body}
		list = append(list, label(lbl, rs))
		return []ast.Stmt{&ast.BlockStmt{List: list}}
	}
	x.X = r.rangeOperand(x.X, t)
	if x.Tok == token.ASSIGN {
		if !blank(x.Key) {
			x.Key = r.lhsInline(x.Key)
		}
		if !blank(x.Value) {
			x.Value = r.lhsInline(x.Value)
		}
	}
	var head []ast.Stmt
	if x.Tok == token.DEFINE && r.o.Race {
		for _, l := range []ast.Expr{x.Key, x.Value} {
			if i, ok := l.(*ast.Ident); ok {
				if o := r.c.Info.Defs[i]; o != nil && r.capt[o] {
					head = append(head, &ast.ExprStmt{X: call(r.d("W"), &ast.UnaryExpr{Op: token.AND, X: id(i.Name)}, str(r.site(i.Name)))})
				}
			}
		}
	}
	x.Body = r.block(x.Body)
	if !r.o.Yields {
		head = append(head, r.y())
	}
	x.Body.List = append(head, x.Body.List...)
	return []ast.Stmt{label(lbl, x)}
}

func (r *rw) rangeOperand(e ast.Expr, t types.Type) ast.Expr {
	if t != nil {
		if _, ok := t.Underlying().(*types.Array); ok && r.addressable(e) {
			return r.place(e)
		}
	}
	return r.expr(e)
}

func (r *rw) selectStmt(x *ast.SelectStmt, lbl *ast.Ident) []ast.Stmt {
	if len(x.Body.List) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: call(r.d("Forever"))}, &ast.ExprStmt{X: call(id("panic"), str("unreachable"))}}
	}
	var pre []ast.Stmt
	hasDef := "false"
	args := []ast.Expr{nil}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	k := 0
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.stmts(cc.Body)})
			continue
		}
		cv := r.tmp("S")
		var head []ast.Stmt
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define(cv, call(call(r.d("SC"), r.expr(m.Chan)), r.expr(m.Value))))
		case *ast.ExprStmt:
			u := ast.Unparen(m.X).(*ast.UnaryExpr)
			pre = append(pre, define(cv, call(r.d("RC"), r.expr(u.X))))
		case *ast.AssignStmt:
			u := ast.Unparen(m.Rhs[0]).(*ast.UnaryExpr)
			pre = append(pre, define(cv, call(r.d("RC"), r.expr(u.X))))
			rhs := []ast.Expr{&ast.SelectorExpr{X: id(cv), Sel: id("Val")}}
			if len(m.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: id(cv), Sel: id("Ok")})
			}
			lhs := m.Lhs
			if m.Tok == token.ASSIGN {
				for i := range lhs {
					lhs[i] = r.lhsInline(lhs[i])
				}
			}
			head = append(head, &ast.AssignStmt{Lhs: lhs, Tok: m.Tok, Rhs: rhs})
		}
		args = append(args, id(cv))
		body := append(head, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}}, Body: body})
		k++
	}
	args[0] = id(hasDef)
	if hasDef == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), str("dsim: select"))}}})
	}
	sw.Tag = call(r.d("Select"), args...)
	if len(pre) == 0 {
		return []ast.Stmt{label(lbl, sw)}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, label(lbl, sw))}}
}

var _ = sort.Strings
