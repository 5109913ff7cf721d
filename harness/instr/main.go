// Command instr copies the Go packages of a repository into a scratch module,
// rewriting every synchronisation operation (package sync, sync/atomic, channel
// operations, select, go statements, time) to the deterministic scheduler in
// zzverif/vs and inserting a scheduling hook before every statement.
//
// usage: instr REPO OUT
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const vsPath = "github.com/QuangTung97/go-memcache/zzverif/vs"

type fakeImporter struct{}

func (fakeImporter) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

type rewriter struct {
	info    *types.Info
	names   map[string]string // import path -> local name
	n       int
	usedVS  bool
	dropped []string
}

var timeFuncs = map[string]string{
	"Now": "TNow", "Since": "TSince", "Until": "TUntil", "Sleep": "TSleep", "After": "TAfter",
	"AfterFunc": "TAfterFunc", "NewTimer": "TNewTimer", "NewTicker": "TNewTicker", "Tick": "TTick",
	"Timer": "TTimer", "Ticker": "TTimer",
}

func (r *rewriter) vs(name string) ast.Expr {
	r.usedVS = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsx"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rewriter) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("vsx%s%d", p, r.n))
}

func (r *rewriter) isChan(e ast.Expr) (bool, bool) {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false, false
	}
	c, ok := tv.Type.Underlying().(*types.Chan)
	if !ok {
		return false, false
	}
	return true, c.Dir() == types.SendRecv
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u, true
	}
	return nil, false
}

// expr rewrites an expression bottom-up.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	switch x := e.(type) {
	case *ast.FuncLit:
		x.Body = r.block(x.Body)
		return x
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(r.vs("Recv"), r.expr(x.X))
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Obj == nil {
			if id.Name == "close" && len(x.Args) == 1 {
				return call(r.vs("Close"), r.expr(x.Args[0]))
			}
			if id.Name == "len" && len(x.Args) == 1 {
				if ok, bi := r.isChan(x.Args[0]); ok {
					if bi {
						return call(r.vs("LenB"), r.expr(x.Args[0]))
					}
					return call(r.vs("Len"), r.expr(x.Args[0]))
				}
			}
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok && id.Obj == nil {
			if n, ok := r.names["time"]; ok && id.Name == n {
				if t, ok := timeFuncs[x.Sel.Name]; ok {
					return r.vs(t)
				}
				return x
			}
			if n, ok := r.names["runtime"]; ok && id.Name == n && x.Sel.Name == "Gosched" {
				return r.vs("Point")
			}
		}
		x.X = r.expr(x.X)
		return x
	}
	r.fields(reflect.ValueOf(e))
	return e
}

var exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()
var stmtType = reflect.TypeOf((*ast.Stmt)(nil)).Elem()

// fields rewrites the expression-valued fields of a node.
func (r *rewriter) fields(v reflect.Value) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !f.CanSet() {
			continue
		}
		switch {
		case f.Type() == exprType:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
			}
		case f.Kind() == reflect.Slice && f.Type().Elem() == exprType:
			for j := 0; j < f.Len(); j++ {
				if !f.Index(j).IsNil() {
					f.Index(j).Set(reflect.ValueOf(r.expr(f.Index(j).Interface().(ast.Expr))))
				}
			}
		case f.Type() == reflect.TypeOf((*ast.FieldList)(nil)):
			r.fieldList(f.Interface().(*ast.FieldList))
		case f.Type() == reflect.TypeOf((*ast.CallExpr)(nil)):
			if !f.IsNil() {
				ce := r.expr(f.Interface().(*ast.CallExpr))
				if c2, ok := ce.(*ast.CallExpr); ok {
					f.Set(reflect.ValueOf(c2))
				}
			}
		case f.Type() == reflect.TypeOf((*ast.FuncType)(nil)):
			if !f.IsNil() {
				r.fields(f)
			}
		}
	}
}

func (r *rewriter) fieldList(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = r.expr(f.Type)
	}
}

func (r *rewriter) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	b.List = r.list(b.List)
	return b
}

func (r *rewriter) hook() ast.Stmt { return &ast.ExprStmt{X: call(r.vs("P"))} }

func (r *rewriter) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		out = append(out, r.hook())
		out = append(out, r.stmt(s, nil))
	}
	if len(in) == 0 {
		out = append(out, r.hook())
	}
	return out
}

func (r *rewriter) genDecl(d *ast.GenDecl) {
	for _, sp := range d.Specs {
		switch x := sp.(type) {
		case *ast.ValueSpec:
			x.Type = r.expr(x.Type)
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := isRecv(x.Values[0]); ok {
					x.Values[0] = call(r.vs("Recv2"), r.expr(u.X))
					continue
				}
			}
			for i := range x.Values {
				x.Values[i] = r.expr(x.Values[i])
			}
		case *ast.TypeSpec:
			x.Type = r.expr(x.Type)
			r.fieldList(x.TypeParams)
		}
	}
}

func (r *rewriter) stmt(s ast.Stmt, label *ast.Ident) ast.Stmt {
	wrap := func(x ast.Stmt) ast.Stmt {
		if label != nil {
			return &ast.LabeledStmt{Label: label, Stmt: x}
		}
		return x
	}
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.LabeledStmt:
		return r.stmt(x.Stmt, x.Label)
	case *ast.BlockStmt:
		return wrap(r.block(x))
	case *ast.IfStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init, nil)
		}
		x.Cond = r.expr(x.Cond)
		x.Body = r.block(x.Body)
		if x.Else != nil {
			x.Else = r.stmt(x.Else, nil)
		}
		return wrap(x)
	case *ast.ForStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init, nil)
		}
		x.Cond = r.expr(x.Cond)
		if x.Post != nil {
			x.Post = r.stmt(x.Post, nil)
		}
		x.Body = r.block(x.Body)
		return wrap(x)
	case *ast.RangeStmt:
		if ok, _ := r.isChan(x.X); ok {
			okv := r.tmp("ok")
			v := r.tmp("v")
			ch := r.tmp("c")
			body := []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{v, okv}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.vs("Recv2"), ch)}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: okv}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
			}
			if x.Key != nil {
				body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{v}})
			}
			body = append(body, r.list(x.Body.List)...)
			loop := wrap(&ast.ForStmt{Body: &ast.BlockStmt{List: body}})
			return &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.X)}},
				loop,
			}}
		}
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
		x.X = r.expr(x.X)
		x.Body = r.block(x.Body)
		return wrap(x)
	case *ast.SwitchStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init, nil)
		}
		x.Tag = r.expr(x.Tag)
		r.clauses(x.Body)
		return wrap(x)
	case *ast.TypeSwitchStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init, nil)
		}
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		}
		r.clauses(x.Body)
		return wrap(x)
	case *ast.SelectStmt:
		return r.selectStmt(x, label)
	case *ast.SendStmt:
		return wrap(&ast.ExprStmt{X: call(call(r.vs("Send"), r.expr(x.Chan)), r.expr(x.Value))})
	case *ast.GoStmt:
		return wrap(r.goStmt(x))
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := isRecv(x.Rhs[0]); ok {
				x.Rhs[0] = call(r.vs("Recv2"), r.expr(u.X))
				for i := range x.Lhs {
					x.Lhs[i] = r.expr(x.Lhs[i])
				}
				return wrap(x)
			}
		}
		r.fields(reflect.ValueOf(x))
		return wrap(x)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			r.genDecl(g)
		}
		return wrap(x)
	case *ast.DeferStmt:
		ce := r.expr(x.Call)
		x.Call = ce.(*ast.CallExpr)
		return wrap(x)
	default:
		r.fields(reflect.ValueOf(s))
		return wrap(s)
	}
}

func (r *rewriter) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		for i := range cc.List {
			cc.List[i] = r.expr(cc.List[i])
		}
		cc.Body = r.list(cc.Body)
	}
}

func simpleArg(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.BasicLit:
		return true
	case *ast.Ident:
		return x.Name == "nil" || x.Name == "true" || x.Name == "false"
	}
	return false
}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: call(r.vs("Go"), r.expr(fl))}
	}
	var list []ast.Stmt
	def := func(e ast.Expr) ast.Expr {
		if simpleArg(e) {
			return e
		}
		t := r.tmp("g")
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
		return t
	}
	var fun ast.Expr
	if id, ok := c.Fun.(*ast.Ident); ok && id.Obj == nil && (id.Name == "close" || id.Name == "panic" || id.Name == "print" || id.Name == "println") {
		fun = id
		if id.Name == "close" {
			fun = r.vs("Close")
		}
	} else {
		fun = def(c.Fun)
	}
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		args[i] = def(a)
	}
	inner := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	list = append(list, &ast.ExprStmt{X: call(r.vs("Go"), &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}},
	})})
	return &ast.BlockStmt{List: list}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var pre []ast.Stmt
	var names []ast.Expr
	hasDefault := false
	var clauses []ast.Stmt
	idx := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			clauses = append(clauses, &ast.CaseClause{Body: r.list(cc.Body)})
			continue
		}
		t := r.tmp("s")
		names = append(names, t)
		var body []ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE,
				Rhs: []ast.Expr{call(call(r.vs("SC"), r.expr(cm.Chan)), r.expr(cm.Value))}})
		case *ast.ExprStmt:
			u, _ := isRecv(cm.X)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.vs("RC"), r.expr(u.X))}})
		case *ast.AssignStmt:
			u, _ := isRecv(cm.Rhs[0])
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.vs("RC"), r.expr(u.X))}})
			rhs := []ast.Expr{&ast.SelectorExpr{X: t, Sel: ast.NewIdent("V")}}
			if len(cm.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: t, Sel: ast.NewIdent("OK")})
			}
			allBlank := true
			for i := range cm.Lhs {
				if id, ok := cm.Lhs[i].(*ast.Ident); !ok || id.Name != "_" {
					allBlank = false
				}
				cm.Lhs[i] = r.expr(cm.Lhs[i])
			}
			tok := cm.Tok
			if allBlank {
				tok = token.ASSIGN
			}
			body = append(body, &ast.AssignStmt{Lhs: cm.Lhs, Tok: tok, Rhs: rhs})
		}
		body = append(body, r.list(cc.Body)...)
		clauses = append(clauses, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}},
			Body: body,
		})
		idx++
	}
	if !hasDefault && len(clauses) > 0 {
		clauses[len(clauses)-1].(*ast.CaseClause).List = nil
	}
	args := append([]ast.Expr{ast.NewIdent(strconv.FormatBool(hasDefault))}, names...)
	var sw ast.Stmt = &ast.SwitchStmt{Tag: call(r.vs("Select"), args...), Body: &ast.BlockStmt{List: clauses}}
	if len(clauses) == 0 {
		sw = &ast.ExprStmt{X: call(r.vs("Select"), args...)}
	}
	if label != nil {
		sw = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, sw)}
}

func (r *rewriter) file(f *ast.File) {
	r.names = map[string]string{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(p)
		if im.Name != nil {
			name = im.Name.Name
		}
		r.names[p] = name
		switch p {
		case "sync":
			im.Path.Value = strconv.Quote(vsPath + "/vsync")
			im.Name = ast.NewIdent(name)
		case "sync/atomic":
			im.Path.Value = strconv.Quote(vsPath + "/vatomic")
			im.Name = ast.NewIdent(name)
		}
	}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.GenDecl:
			if x.Tok != token.IMPORT {
				r.genDecl(x)
			}
		case *ast.FuncDecl:
			r.fieldList(x.Recv)
			r.fields(reflect.ValueOf(x.Type))
			x.Body = r.block(x.Body)
		}
	}
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(2)
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	dirs := map[string][]string{}
	err := filepath.Walk(repo, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if st.IsDir() {
			b := filepath.Base(p)
			if rel != "." && (strings.HasPrefix(b, ".") || b == "examples" || b == "tests" || b == "vendor" || b == "testdata" || b == "docker") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || filepath.Dir(rel) == "." {
			return nil
		}
		ctx := build.Default
		ctx.BuildTags = append(ctx.BuildTags, "verif")
		ok, err := ctx.MatchFile(filepath.Dir(p), filepath.Base(p))
		if err != nil {
			return err
		}
		if ok {
			dirs[filepath.Dir(rel)] = append(dirs[filepath.Dir(rel)], p)
		}
		return nil
	})
	if err != nil {
		die(err)
	}
	var keys []string
	for d := range dirs {
		keys = append(keys, d)
	}
	sort.Strings(keys)
	for _, d := range keys {
		fset := token.NewFileSet()
		var files []*ast.File
		for _, p := range dirs[d] {
			f, err := parser.ParseFile(fset, p, nil, 0)
			if err != nil {
				die(err)
			}
			files = append(files, f)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: fakeImporter{}, Error: func(error) {}, FakeImportC: true}
		_, _ = conf.Check(d, fset, files, info)
		if err := os.MkdirAll(filepath.Join(out, d), 0o755); err != nil {
			die(err)
		}
		for i, f := range files {
			r := &rewriter{info: info}
			r.file(f)
			var buf bytes.Buffer
			if err := format.Node(&buf, fset, f); err != nil {
				die(fmt.Errorf("%s: %w", dirs[d][i], err))
			}
			src := buf.String()
			if r.usedVS {
				j := strings.Index(src, "\n")
				for !strings.HasPrefix(src, "package ") && j >= 0 {
					src = src[j+1:]
					j = strings.Index(src, "\n")
				}
				src = src[:j+1] + "\nimport vsx " + strconv.Quote(vsPath) + "\n" + src[j+1:]
			}
			if n, ok := r.names["time"]; ok && n != "_" && n != "." {
				src += "\nvar _ = " + n + ".Nanosecond\n"
			}
			if n, ok := r.names["runtime"]; ok && n != "_" && n != "." {
				src += "\nvar _ = " + n + ".GOOS\n"
			}
			if err := os.WriteFile(filepath.Join(out, d, filepath.Base(dirs[d][i])), []byte(src), 0o644); err != nil {
				die(err)
			}
		}
	}
}
