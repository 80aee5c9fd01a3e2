// Command instr rewrites the packages of /repo for the controlled scheduler (see package vs) and writes
// an overlay file for go build.
//
//	instr -dir MODULE -out DIR PACKAGE   (PACKAGE: the harness, whose /repo dependencies are rewritten)
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

const prefix = "github.com/Redundancy/go-sync"

var numbers = map[string]int{
	prefix:                         0,
	prefix + "/blocksources":       1,
	prefix + "/comparer":           2,
	prefix + "/filechecksum":       3,
	prefix + "/patcher/sequential": 4,
	prefix + "/index":              5,
}

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles, CgoFiles       []string
	Error                   *struct{ Err string }
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"instr:"}, a...)...)
	os.Exit(1)
}

func main() {
	dir := flag.String("dir", ".", "module of the harness")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,CgoFiles,Error", flag.Arg(0))
	cmd.Dir = *dir
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fatal("go list:", err)
	}
	exports := map[string]string{}
	var pkgs []pkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == prefix || strings.HasPrefix(p.ImportPath, prefix+"/") {
			pkgs = append(pkgs, p)
		}
	}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fatal(err)
	}
	overlay := map[string]string{}
	for _, p := range pkgs {
		k, ok := numbers[p.ImportPath]
		if !ok {
			k = 6
		}
		fset := token.NewFileSet()
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				fatal(err)
			}
			files = append(files, af)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{},
			Defs:  map[*ast.Ident]types.Object{},
			Uses:  map[*ast.Ident]types.Object{},
		}
		conf := types.Config{Importer: imp, FakeImportC: true}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			fatal(err)
		}
		for i, af := range files {
			r := &rewriter{info: info, k: k, pkg: tp}
			r.file(af)
			var buf bytes.Buffer
			buf.WriteString("//go:build go1.21\n\n")
			if err := format.Node(&buf, fset, af); err != nil {
				fatal(err)
			}
			name := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, "github.com/"), "/", "_")+"__"+p.GoFiles[i])
			if err := os.WriteFile(name, buf.Bytes(), 0o644); err != nil {
				fatal(err)
			}
			overlay[filepath.Join(p.Dir, p.GoFiles[i])] = name
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		fatal(err)
	}
}

type rewriter struct {
	info   *types.Info
	k      int
	pkg    *types.Package
	n      int
	uses   bool
	shared map[types.Object]bool // locals that are captured or whose address is taken
	fn     ast.Node
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func sel(s string) ast.Expr { return &ast.SelectorExpr{X: id("vs__"), Sel: id(s)} }

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rewriter) vs(f string, args ...ast.Expr) *ast.CallExpr {
	r.uses = true
	return call(sel(f), args...)
}

func (r *rewriter) tmp() *ast.Ident {
	r.n++
	return id("vs__" + strconv.Itoa(r.n))
}

func lit(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }

func define(l, v ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.DEFINE, Rhs: []ast.Expr{v}}
}

func (r *rewriter) file(f *ast.File) {
	for _, im := range f.Imports {
		switch im.Path.Value {
		case `"sync"`:
			im.Path.Value = `"verif/mc/vsync"`
			if im.Name == nil {
				im.Name = id("sync")
			}
		case `"sync/atomic"`:
			im.Path.Value = `"verif/mc/vatomic"`
			if im.Name == nil {
				im.Name = id("atomic")
			}
		}
	}
	r.findShared(f)
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.fn = d
				d.Body.List = r.stmts(d.Body.List)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if v, ok := s.(*ast.ValueSpec); ok {
					r.valueSpec(v)
				}
			}
		}
	}
	if r.uses {
		spec := &ast.ImportSpec{Name: id("vs__"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/mc/vs"`}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
		f.Imports = append(f.Imports, spec)
	}
}

// findShared finds the local variables that another goroutine could reach.
func (r *rewriter) findShared(f *ast.File) {
	r.shared = map[types.Object]bool{}
	var lits []*ast.FuncLit
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, n)
			ast.Inspect(n.Body, walk)
			lits = lits[:len(lits)-1]
			return false
		case *ast.Ident:
			if o := r.info.Uses[n]; o != nil {
				for _, l := range lits {
					if o.Pos() < l.Pos() || o.Pos() > l.End() {
						r.shared[o] = true
					}
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				e := n.X
				for {
					switch x := e.(type) {
					case *ast.ParenExpr:
						e = x.X
						continue
					case *ast.SelectorExpr:
						e = x.X
						continue
					case *ast.IndexExpr:
						e = x.X
						continue
					case *ast.Ident:
						if o := r.info.Uses[x]; o != nil {
							r.shared[o] = true
						}
					}
					break
				}
			}
		}
		return true
	}
	ast.Inspect(f, walk)
}

// local reports whether evaluating the node touches only variables of the function.
func (r *rewriter) local(n ast.Node) bool {
	if n == nil || reflect.ValueOf(n).IsNil() {
		return true
	}
	ok := true
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.Ident:
			switch o := r.info.Uses[n].(type) {
			case *types.Var:
				if o.IsField() {
					break
				}
				if r.shared[o] || o.Parent() == nil || o.Parent() == r.pkg.Scope() || o.Pkg() != r.pkg {
					ok = false
				}
			}
		case *ast.CallExpr:
			if tv, k := r.info.Types[n.Fun]; k && tv.IsType() {
				break
			}
			if b := r.builtin(n); b == "len" || b == "cap" || b == "min" || b == "max" || b == "new" || b == "make" {
				break
			}
			ok = false
		case *ast.StarExpr:
			if tv, k := r.info.Types[n]; !k || !tv.IsType() {
				ok = false
			}
		case *ast.SelectorExpr:
			if tv, k := r.info.Types[n.X]; k && tv.Type != nil {
				if _, p := tv.Type.Underlying().(*types.Pointer); p {
					ok = false
				}
			}
		case *ast.IndexExpr, *ast.SliceExpr:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		case *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt:
			ok = false
		}
		return ok
	})
	return ok
}

func (r *rewriter) builtin(c *ast.CallExpr) string {
	f := c.Fun
	for {
		p, ok := f.(*ast.ParenExpr)
		if !ok {
			break
		}
		f = p.X
	}
	if i, ok := f.(*ast.Ident); ok {
		if b, ok := r.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

// mark is the statement put before s.
func (r *rewriter) mark(s ast.Stmt) ast.Stmt {
	loc := false
	switch s := s.(type) {
	case *ast.LabeledStmt:
		return r.mark(s.Stmt)
	case *ast.IfStmt:
		loc = r.local(s.Init) && r.local(s.Cond)
	case *ast.ForStmt:
		loc = r.local(s.Init) && r.local(s.Cond)
	case *ast.RangeStmt:
		loc = r.local(s.X)
	case *ast.SwitchStmt:
		loc = r.local(s.Init) && r.local(s.Tag)
		if loc {
			for _, c := range s.Body.List {
				for _, e := range c.(*ast.CaseClause).List {
					loc = loc && r.local(e)
				}
			}
		}
	case *ast.SelectStmt, *ast.SendStmt, *ast.GoStmt, *ast.BlockStmt, *ast.EmptyStmt, *ast.BranchStmt:
		loc = true // has a scheduling point of its own, or none
	case *ast.DeferStmt:
		loc = true
	default:
		loc = r.local(s)
	}
	f := "Y"
	if loc {
		f = "L"
	}
	return &ast.ExprStmt{X: r.vs(f, lit(r.k))}
}

func (r *rewriter) stmts(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		out = append(out, r.mark(s))
		if o := r.split(s); o != nil {
			out = append(out, o...)
			continue
		}
		out = append(out, r.stmt(s, "")...)
		if _, ok := s.(*ast.DeferStmt); ok {
			// a scheduling point before the deferred call is made
			out = append(out, &ast.DeferStmt{Call: r.vs("D", lit(r.k))})
		}
	}
	return out
}

// split divides a statement that reads and then writes shared variables, so that another goroutine can
// run in between.
func (r *rewriter) split(s ast.Stmt) []ast.Stmt {
	y := func() ast.Stmt { return &ast.ExprStmt{X: r.vs("Y", lit(r.k))} }
	switch s := s.(type) {
	case *ast.IncDecStmt:
		if !r.shareable(s.X) {
			return nil
		}
		p, v := r.tmp(), r.tmp()
		return []ast.Stmt{
			define(p, &ast.UnaryExpr{Op: token.AND, X: r.expr(s.X)}),
			define(v, &ast.StarExpr{X: p}),
			y(),
			&ast.IncDecStmt{X: v, Tok: s.Tok},
			&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: p}}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
		}
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || s.Tok == token.DEFINE || !r.shareable(s.Lhs[0]) {
			return nil
		}
		if s.Tok != token.ASSIGN {
			p, v := r.tmp(), r.tmp()
			return []ast.Stmt{
				define(p, &ast.UnaryExpr{Op: token.AND, X: r.expr(s.Lhs[0])}),
				define(v, &ast.StarExpr{X: p}),
				y(),
				&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: s.Tok, Rhs: []ast.Expr{r.expr(s.Rhs[0])}},
				&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: p}}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
			}
		}
		l, ok1 := r.info.Types[s.Lhs[0]]
		e, ok2 := r.info.Types[s.Rhs[0]]
		if i, ok := s.Lhs[0].(*ast.Ident); ok && !ok1 {
			if o := r.info.Uses[i]; o != nil {
				l.Type, ok1 = o.Type(), true
			}
		}
		if !ok1 || !ok2 || e.Value != nil || !e.IsValue() || e.Type == nil || !types.Identical(l.Type, e.Type) ||
			r.local(s.Rhs[0]) || recvOf(s.Rhs[0]) != nil {
			return nil
		}
		t := r.tmp()
		return []ast.Stmt{
			define(t, r.expr(s.Rhs[0])),
			y(),
			&ast.AssignStmt{Lhs: []ast.Expr{r.expr(s.Lhs[0])}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
		}
	}
	return nil
}

// shareable reports whether the expression is an addressable variable that another goroutine could reach.
func (r *rewriter) shareable(e ast.Expr) bool {
	if r.local(e) {
		return false
	}
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr:
			ok = false
		case *ast.IndexExpr:
			t, k := r.info.Types[n.X]
			if !k || t.Type == nil {
				ok = false
				break
			}
			if _, m := t.Type.Underlying().(*types.Map); m {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (r *rewriter) body(list []ast.Stmt) []ast.Stmt {
	o := r.stmts(list)
	if len(o) == 0 {
		o = append(o, &ast.ExprStmt{X: r.vs("L", lit(r.k))})
	}
	return o
}

func labeled(label string, s ast.Stmt) ast.Stmt {
	if label == "" {
		return s
	}
	return &ast.LabeledStmt{Label: id(label), Stmt: s}
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// simple rewrites a statement in a place where only a simple statement may stand.
func (r *rewriter) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	o := r.stmt(s, "")
	if len(o) != 1 {
		panic("instr: simple statement")
	}
	return o[0]
}

func (r *rewriter) stmt(s ast.Stmt, label string) []ast.Stmt {
	one := func(s ast.Stmt) []ast.Stmt { return []ast.Stmt{labeled(label, s)} }
	switch s := s.(type) {
	case *ast.LabeledStmt:
		o := r.stmt(s.Stmt, s.Label.Name)
		return o
	case *ast.BlockStmt:
		s.List = r.stmts(s.List)
		return one(s)
	case *ast.IfStmt:
		s.Init = r.simple(s.Init)
		s.Cond = r.expr(s.Cond)
		s.Body.List = r.stmts(s.Body.List)
		if s.Else != nil {
			switch e := s.Else.(type) {
			case *ast.BlockStmt:
				e.List = r.stmts(e.List)
			default:
				s.Else = &ast.BlockStmt{List: r.stmts([]ast.Stmt{e})}
			}
		}
		return one(s)
	case *ast.ForStmt:
		s.Init = r.simple(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		s.Post = r.simple(s.Post)
		s.Body.List = r.body(s.Body.List)
		return one(s)
	case *ast.RangeStmt:
		if tv, ok := r.info.Types[s.X]; ok && isChan(tv.Type) {
			c := r.tmp()
			x := r.expr(s.X)
			v, okv := r.tmp(), r.tmp()
			blk := &ast.BlockStmt{List: []ast.Stmt{define(c, x)}}
			var recvd ast.Stmt
			if s.Key == nil || isBlank(s.Key) {
				v = id("_")
			} else {
				if s.Tok == token.DEFINE {
					blk.List = append(blk.List, define(s.Key, r.vs("Zero", c)))
				}
				recvd = &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}
			}
			b := []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{v, okv}, Tok: token.DEFINE, Rhs: []ast.Expr{r.vs("Recv2", c)}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: okv}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			}
			if recvd != nil {
				b = append(b, recvd)
			}
			b = append(b, r.body(s.Body.List)...)
			blk.List = append(blk.List, labeled(label, &ast.ForStmt{Body: &ast.BlockStmt{List: b}}))
			return []ast.Stmt{blk}
		}
		if s.Key != nil {
			s.Key = r.expr(s.Key)
		}
		if s.Value != nil {
			s.Value = r.expr(s.Value)
		}
		s.X = r.expr(s.X)
		s.Body.List = r.body(s.Body.List)
		return one(s)
	case *ast.SwitchStmt:
		s.Init = r.simple(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		r.clauses(s.Body)
		return one(s)
	case *ast.TypeSwitchStmt:
		s.Init = r.simple(s.Init)
		s.Assign = r.simple(s.Assign)
		r.clauses(s.Body)
		return one(s)
	case *ast.SelectStmt:
		return r.selectStmt(s, label)
	case *ast.SendStmt:
		return one(&ast.ExprStmt{X: call(r.vs("Sender", r.expr(s.Chan)), r.expr(s.Value))})
	case *ast.GoStmt:
		return one(r.goStmt(s))
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call).(*ast.CallExpr)
		return one(s)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u := recvOf(s.Rhs[0]); u != nil {
				s.Lhs[0], s.Lhs[1] = r.expr(s.Lhs[0]), r.expr(s.Lhs[1])
				s.Rhs[0] = r.vs("Recv2", r.expr(u.X))
				return one(s)
			}
		}
		for i := range s.Lhs {
			s.Lhs[i] = r.expr(s.Lhs[i])
		}
		for i := range s.Rhs {
			s.Rhs[i] = r.expr(s.Rhs[i])
		}
		return one(s)
	case *ast.DeclStmt:
		if d, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range d.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					r.valueSpec(v)
				}
			}
		}
		return one(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
		return one(s)
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
		return one(s)
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = r.expr(s.Results[i])
		}
		return one(s)
	default:
		return one(s)
	}
}

func isBlank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rewriter) valueSpec(v *ast.ValueSpec) {
	if len(v.Names) == 2 && len(v.Values) == 1 {
		if u := recvOf(v.Values[0]); u != nil {
			v.Values[0] = r.vs("Recv2", r.expr(u.X))
			return
		}
	}
	for i := range v.Values {
		v.Values[i] = r.expr(v.Values[i])
	}
}

func (r *rewriter) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		for i := range cc.List {
			cc.List[i] = r.expr(cc.List[i])
		}
		// a fallthrough has to stay the last statement: nothing is put behind, so this is fine
		cc.Body = r.stmts(cc.Body)
	}
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	blk := &ast.BlockStmt{}
	if r.builtin(c) != "" {
		x := r.expr(c)
		blk.List = append(blk.List, &ast.ExprStmt{X: r.vs("Go", &ast.FuncLit{
			Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: x}}},
		})})
		return blk
	}
	tuple := false
	if len(c.Args) == 1 {
		if tv, ok := r.info.Types[c.Args[0]]; ok {
			_, tuple = tv.Type.(*types.Tuple)
		}
	}
	nc := &ast.CallExpr{Ellipsis: c.Ellipsis}
	for _, a := range c.Args {
		tv := r.info.Types[a]
		x := r.expr(a)
		if tuple || tv.Value != nil || tv.IsNil() {
			nc.Args = append(nc.Args, x)
			continue
		}
		t := r.tmp()
		blk.List = append(blk.List, define(t, x))
		nc.Args = append(nc.Args, t)
	}
	t := r.tmp()
	blk.List = append([]ast.Stmt{define(t, r.expr(c.Fun))}, blk.List...)
	nc.Fun = t
	if len(nc.Args) == 0 && c.Ellipsis == token.NoPos {
		if sig, ok := r.info.Types[c.Fun].Type.Underlying().(*types.Signature); ok && sig.Results().Len() == 0 {
			if _, isLit := c.Fun.(*ast.FuncLit); isLit {
				blk.List = append(blk.List, &ast.ExprStmt{X: r.vs("Go", t)})
				return blk
			}
		}
	}
	blk.List = append(blk.List, &ast.ExprStmt{X: r.vs("Go", &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}},
	})})
	return blk
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label string) []ast.Stmt {
	if len(s.Body.List) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: r.vs("BlockForever")}}
	}
	blk := &ast.BlockStmt{}
	sv := r.tmp()
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Tag: &ast.SelectorExpr{X: sv, Sel: id("I")}, Body: &ast.BlockStmt{}}
	hasDefault := "false"
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		n := lit(len(cases))
		var pre []ast.Stmt
		switch cm := cc.Comm.(type) {
		case nil:
			hasDefault = "true"
			n = &ast.UnaryExpr{Op: token.SUB, X: lit(1)}
		case *ast.SendStmt:
			t := r.tmp()
			blk.List = append(blk.List, define(t, call(r.vs("SendCase", r.expr(cm.Chan)), r.expr(cm.Value))))
			cases = append(cases, t)
		case *ast.ExprStmt:
			t := r.tmp()
			blk.List = append(blk.List, define(t, r.expr(recvOf(cm.X).X)))
			cases = append(cases, r.vs("RecvCase", t))
		case *ast.AssignStmt:
			t := r.tmp()
			blk.List = append(blk.List, define(t, r.expr(recvOf(cm.Rhs[0]).X)))
			cases = append(cases, r.vs("RecvCase", t))
			f := "SelVal"
			if len(cm.Lhs) == 2 {
				f = "SelVal2"
			}
			for i := range cm.Lhs {
				cm.Lhs[i] = r.expr(cm.Lhs[i])
			}
			pre = append(pre, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: []ast.Expr{r.vs(f, t, sv)}})
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{n}, Body: append(pre, r.stmts(cc.Body)...)})
	}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"vs: select"`})}}})
	blk.List = append(blk.List, define(sv, r.vs("Select", append([]ast.Expr{id(hasDefault)}, cases...)...)), labeled(label, sw))
	return []ast.Stmt{blk}
}

var exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()

// expr rewrites an expression.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil || reflect.ValueOf(e).IsNil() {
		return e
	}
	switch x := e.(type) {
	case *ast.FuncLit:
		x.Body.List = r.stmts(x.Body.List)
		return x
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return r.vs("Recv", r.expr(x.X))
		}
	case *ast.CallExpr:
		b := r.builtin(x)
		isCh := len(x.Args) == 1 && isChan(r.info.Types[x.Args[0]].Type)
		switch {
		case b == "close":
			return r.vs("Close", r.expr(x.Args[0]))
		case b == "len" && isCh:
			return r.vs("Len", r.expr(x.Args[0]))
		}
	}
	v := reflect.ValueOf(e).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch {
		case f.Type() == exprType:
			if !f.IsNil() {
				if n := r.expr(f.Interface().(ast.Expr)); n != nil {
					f.Set(reflect.ValueOf(n))
				}
			}
		case f.Type() == reflect.SliceOf(exprType):
			for j := 0; j < f.Len(); j++ {
				n := r.expr(f.Index(j).Interface().(ast.Expr))
				f.Index(j).Set(reflect.ValueOf(n))
			}
		}
	}
	return e
}
