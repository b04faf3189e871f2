// instrument writes copies of the library's packages in which goroutines,
// channels, locks, atomics and the clock are those of verifmc/mcrt and every
// statement is preceded by a scheduling point, and an overlay file for go build.
//
//	instrument REPO OUTDIR
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const module = "github.com/myyrakle/gost"

var fset = token.NewFileSet()

type pkg struct {
	dir, path string
	names     []string
	files     []*ast.File
	info      *types.Info
	types     *types.Package
	order     map[types.Object]int // initialisation order of package variables
	later     int                  // packages are initialised one after the other
}

var done = map[string]*pkg{}
var std = importer.ForCompiler(fset, "source", nil)

type imp struct{ repo string }

func (im imp) Import(path string) (*types.Package, error) {
	if path == module || strings.HasPrefix(path, module+"/") {
		p, err := load(im.repo, path)
		if err != nil {
			return nil, err
		}
		return p.types, nil
	}
	return std.Import(path)
}

func load(repo, path string) (*pkg, error) {
	if p := done[path]; p != nil {
		return p, nil
	}
	dir := filepath.Join(repo, strings.TrimPrefix(strings.TrimPrefix(path, module), "/"))
	bp, err := build.Default.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	p := &pkg{dir: dir, path: path}
	for _, n := range bp.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		p.names = append(p.names, n)
		p.files = append(p.files, f)
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp{repo}}
	p.types, err = conf.Check(path, fset, p.files, p.info)
	if err != nil {
		return nil, err
	}
	done[path] = p
	return p, nil
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "instrument:", err)
	os.Exit(1)
}

func main() {
	build.Default.CgoEnabled = false
	repo, out := os.Args[1], os.Args[2]
	costs = len(os.Args) > 3 && os.Args[3] == "costs"
	replace := map[string]string{}
	for _, path := range []string{module, module + "/gokio"} {
		if _, err := load(repo, path); err != nil {
			die(err)
		}
	}
	for path, p := range done {
		p.order = map[types.Object]int{}
		for i, in := range p.info.InitOrder {
			for _, v := range in.Lhs {
				p.order[v] = i + 1
			}
		}
		if path != module {
			p.later = 1 << 20
		}
		for i, f := range p.files {
			r := &rewriter{p: p, f: f}
			r.file()
			var b bytes.Buffer
			if err := printer.Fprint(&b, token.NewFileSet(), f); err != nil {
				die(err)
			}
			o := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(path, module), "/", "_")+"_"+p.names[i])
			if err := os.WriteFile(o, b.Bytes(), 0o644); err != nil {
				die(err)
			}
			replace[filepath.Join(p.dir, p.names[i])] = o
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		die(err)
	}
}

// what replaces objects of other packages
var swap = map[string]string{
	"sync.Mutex": "Mutex", "sync.RWMutex": "RWMutex", "sync.WaitGroup": "WaitGroup", "sync.Once": "Once", "sync.Cond": "Cond", "sync.NewCond": "NewCond",
	"sync.Pool": "Pool", "sync.OnceFunc": "OnceFunc", "sync.OnceValue": "OnceValue", "sync.OnceValues": "OnceValues",
	"time.Sleep": "Sleep", "time.After": "After", "time.NewTimer": "NewTimer", "time.AfterFunc": "AfterFunc", "time.Tick": "Tick", "time.NewTicker": "NewTicker",
	"time.Timer": "Timer", "time.Ticker": "Ticker", "time.Now": "Now", "time.Since": "Since", "time.Until": "Until2",
	"runtime.Gosched": "Gosched", "runtime.NumGoroutine": "NumGoroutine",
}

func init() {
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Bool", "Pointer", "Value"} {
		swap["sync/atomic."+t] = "Atomic" + t
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		for a, b := range map[string]string{"Add": "Add", "Load": "Load", "Store": "Store", "Swap": "Swap", "CompareAndSwap": "CAS", "And": "And", "Or": "Or"} {
			swap["sync/atomic."+a+t] = "Atomic" + b
		}
	}
}

// costs: count the elements that append, copy and make move or clear (the race
// detector does not see these then).
var costs bool

type rewriter struct {
	p     *pkg
	f     *ast.File
	used  bool
	n     int
	funcs []ast.Node // enclosing functions
}

const rt = "mcrt_"

func (r *rewriter) rt(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(rt), Sel: ast.NewIdent(name)}
}

func (r *rewriter) tmp() *ast.Ident {
	r.n++
	return ast.NewIdent("mcrtTmp" + strconv.Itoa(r.n))
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func sel(x ast.Expr, name string) ast.Expr {
	switch x.(type) {
	case *ast.StarExpr, *ast.UnaryExpr, *ast.BinaryExpr, *ast.FuncLit:
		x = &ast.ParenExpr{X: x}
	}
	return &ast.SelectorExpr{X: x, Sel: ast.NewIdent(name)}
}

func (r *rewriter) isChan(e ast.Expr) bool {
	tv, ok := r.p.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) builtin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.p.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) file() {
	f := r.f
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			r.fieldList(d.Recv)
			r.funcType(d.Type)
			if d.Body != nil {
				r.funcs = append(r.funcs, d)
				d.Body.List = r.stmts(d.Body.List)
				r.funcs = r.funcs[:len(r.funcs)-1]
			}
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				continue
			}
			for _, s := range d.Specs {
				r.spec(s)
			}
		}
	}
	r.resets()
	// imports that are no longer used
	left := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if pn, ok := r.p.info.Uses[id].(*types.PkgName); ok {
				left[pn.Imported().Path()] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	var imports []ast.Spec
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			keep := left[path] || is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".")
			if keep {
				imports = append(imports, &ast.ImportSpec{Name: is.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: is.Path.Value}})
			}
		}
	}
	if r.used {
		imports = append(imports, &ast.ImportSpec{Name: ast.NewIdent(rt), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verifmc/mcrt"`}})
	}
	if len(imports) > 0 {
		decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 2, Specs: imports}}, decls...)
	}
	f.Decls = decls
	f.Comments = nil
}

// resets adds an init function that tells mcrt how to give the file's package
// variables their initial values again, so that every execution starts alike.
func (r *rewriter) resets() {
	var body []ast.Stmt
	for _, d := range r.f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			v := s.(*ast.ValueSpec)
			var lhs []ast.Expr
			named, order := false, 0
			for _, n := range v.Names {
				lhs = append(lhs, ast.NewIdent(n.Name))
				named = named || n.Name != "_"
				if k := r.p.order[r.p.info.Defs[n]]; k > order {
					order = k
				}
			}
			if !named {
				continue
			}
			var set []ast.Stmt
			switch {
			case len(v.Values) == 0:
				z := r.tmp()
				set = append(set, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{z}, Type: v.Type}}}})
				for _, l := range lhs {
					set = append(set, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(z.Name)}})
				}
			case len(v.Values) == len(lhs):
				// one by one, in their own order
				for i, l := range lhs {
					if v.Names[i].Name != "_" {
						body = append(body, r.onReset(r.p.order[r.p.info.Defs[v.Names[i]]], &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{v.Values[i]}}))
					}
				}
				continue
			default:
				set = append(set, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: v.Values})
			}
			body = append(body, r.onReset(order, set...))
		}
	}
	if body != nil {
		r.f.Decls = append(r.f.Decls, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
	}
}

func (r *rewriter) onReset(order int, body ...ast.Stmt) ast.Stmt {
	f := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
	return &ast.ExprStmt{X: call(r.rt("OnReset"), &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(r.p.later + order)}, f)}
}

func (r *rewriter) spec(s ast.Spec) {
	switch s := s.(type) {
	case *ast.TypeSpec:
		r.fieldList(s.TypeParams)
		s.Type = r.expr(s.Type)
	case *ast.ValueSpec:
		if s.Type != nil {
			s.Type = r.expr(s.Type)
		}
		for i := range s.Values {
			s.Values[i] = r.expr(s.Values[i])
		}
	}
}

func (r *rewriter) fieldList(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Type = r.expr(f.Type)
	}
}

func (r *rewriter) funcType(t *ast.FuncType) {
	r.fieldList(t.TypeParams)
	r.fieldList(t.Params)
	r.fieldList(t.Results)
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

// expr rewrites an expression or a type.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if pn, ok := r.p.info.Uses[id].(*types.PkgName); ok {
				if to, ok := swap[pn.Imported().Path()+"."+e.Sel.Name]; ok {
					return r.rt(to)
				}
				return e
			}
		}
		e.X = r.expr(e.X)
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.rt("Chan"), Index: r.expr(e.Value)}}
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return call(sel(r.expr(e.X), "Recv"))
		}
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
		r.exprs(e.Indices)
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		if e.Low != nil {
			e.Low = r.expr(e.Low)
		}
		if e.High != nil {
			e.High = r.expr(e.High)
		}
		if e.Max != nil {
			e.Max = r.expr(e.Max)
		}
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
		if e.Type != nil {
			e.Type = r.expr(e.Type)
		}
	case *ast.KeyValueExpr:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
	case *ast.CompositeLit:
		if e.Type != nil {
			e.Type = r.expr(e.Type)
		}
		r.exprs(e.Elts)
	case *ast.ArrayType:
		if e.Len != nil {
			e.Len = r.expr(e.Len)
		}
		e.Elt = r.expr(e.Elt)
	case *ast.MapType:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
	case *ast.StructType:
		r.fieldList(e.Fields)
	case *ast.InterfaceType:
		r.fieldList(e.Methods)
	case *ast.FuncType:
		r.funcType(e)
	case *ast.Ellipsis:
		if e.Elt != nil {
			e.Elt = r.expr(e.Elt)
		}
	case *ast.FuncLit:
		r.funcType(e.Type)
		r.funcs = append(r.funcs, e)
		e.Body.List = r.stmts(e.Body.List)
		r.funcs = r.funcs[:len(r.funcs)-1]
	case *ast.CallExpr:
		return r.call(e)
	}
	return e
}

func (r *rewriter) call(e *ast.CallExpr) ast.Expr {
	if len(e.Args) > 0 {
		switch {
		case r.builtin(e.Fun, "close"):
			return call(sel(r.expr(e.Args[0]), "Close"))
		case r.builtin(e.Fun, "len") && r.isChan(e.Args[0]):
			return call(sel(r.expr(e.Args[0]), "Len"))
		case r.builtin(e.Fun, "cap") && r.isChan(e.Args[0]):
			return call(sel(r.expr(e.Args[0]), "Cap"))
		case r.builtin(e.Fun, "make"):
			if tv := r.p.info.Types[e.Args[0]]; tv.Type != nil {
				if ct, ok := tv.Type.Underlying().(*types.Chan); ok {
					var elem ast.Expr
					if lit, ok := e.Args[0].(*ast.ChanType); ok {
						elem = r.expr(lit.Value)
					} else {
						elem = r.typeExpr(ct.Elem())
					}
					n := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
					if len(e.Args) > 1 {
						n = call(ast.NewIdent("int"), r.expr(e.Args[1]))
					}
					return call(&ast.IndexExpr{X: r.rt("MakeChan"), Index: elem}, n)
				}
			}
		}
	}
	if costs && len(e.Args) > 0 {
		if n := r.counted(e); n != "" {
			r.exprs(e.Args)
			if n == "Append" {
				e.Fun = r.rt(n)
				return e
			}
			return call(r.rt(n), e)
		}
	}
	e.Fun = r.expr(e.Fun)
	r.exprs(e.Args)
	return e
}

// counted names the stand-in for a builtin whose work is counted.
func (r *rewriter) counted(e *ast.CallExpr) string {
	slice := func(e ast.Expr) bool {
		tv := r.p.info.Types[e]
		if tv.Type == nil {
			return false
		}
		_, ok := tv.Type.Underlying().(*types.Slice)
		return ok
	}
	switch {
	case r.builtin(e.Fun, "copy"):
		return "Copied"
	case r.builtin(e.Fun, "make") && slice(e.Args[0]):
		return "Made"
	case r.builtin(e.Fun, "append") && slice(e.Args[0]) && (!e.Ellipsis.IsValid() || slice(e.Args[len(e.Args)-1])):
		return "Append"
	}
	return ""
}

// typeExpr writes a type down (only for makes of named channel types).
func (r *rewriter) typeExpr(t types.Type) ast.Expr {
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.p.types {
			return ""
		}
		return p.Name()
	})
	x, err := parser.ParseExpr(s)
	if err != nil {
		die(err)
	}
	return x
}

func (r *rewriter) step() ast.Stmt { return &ast.ExprStmt{X: call(r.rt("Step"))} }

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.DeclStmt, *ast.EmptyStmt, *ast.LabeledStmt, *ast.BlockStmt:
		default:
			out = append(out, r.step())
		}
		out = append(out, r.stmt(s, nil))
	}
	return out
}

func (r *rewriter) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: r.stmts(b.List)}
}

func (r *rewriter) loopBody(b *ast.BlockStmt) *ast.BlockStmt {
	n := r.block(b)
	if len(n.List) == 0 {
		n.List = []ast.Stmt{r.step()}
	}
	return n
}

func blank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// shared tells whether other goroutines may see the variable.
func (r *rewriter) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.shared(e.X)
	case *ast.Ident:
		if e.Name == "_" {
			return false
		}
		o := r.p.info.Uses[e]
		if o == nil {
			return false
		}
		f := r.funcs[len(r.funcs)-1]
		return o.Pos() < f.Pos() || o.Pos() > f.End()
	case *ast.SelectorExpr, *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		if tv := r.p.info.Types[e.X]; tv.Type != nil {
			if _, ok := tv.Type.Underlying().(*types.Map); ok {
				return false
			}
		}
		return true
	}
	return false
}

// addressable: &e is allowed.
func (r *rewriter) addressable(e ast.Expr) bool { return r.p.info.Types[e].Addressable() }

// yielded wraps a value so that there is a scheduling point after its evaluation.
func (r *rewriter) yielded(orig, e ast.Expr) ast.Expr {
	tv := r.p.info.Types[orig]
	if tv.Value != nil || tv.IsNil() || tv.Type == nil {
		return e
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return e
	}
	switch orig.(type) {
	case *ast.FuncLit:
		return e
	case *ast.BinaryExpr, *ast.UnaryExpr: // comparisons convert to the type of the left side
		if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return e
		}
	}
	if sig, ok := tv.Type.(*types.Signature); ok && sig != nil {
		return e
	}
	if _, ok := tv.Type.(*types.Tuple); ok {
		return e
	}
	return call(r.rt("Y"), e)
}

func (r *rewriter) stmt(s ast.Stmt, label *ast.Ident) ast.Stmt {
	switch s := s.(type) {
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(sel(r.expr(s.Chan), "Send"), r.expr(s.Value))}
	case *ast.IncDecStmt:
		if r.shared(s.X) && r.addressable(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return r.readWrite(s.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"}, nil)
		}
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		return r.assign(s)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		c := r.call(s.Call).(*ast.CallExpr)
		s.Call = c
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	case *ast.BlockStmt:
		return r.block(s)
	case *ast.IfStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init, nil)
		}
		s.Cond = r.expr(s.Cond)
		s.Body = r.block(s.Body)
		if s.Else != nil {
			s.Else = r.stmt(s.Else, nil)
		}
	case *ast.CaseClause:
		r.exprs(s.List)
		s.Body = r.stmts(s.Body)
	case *ast.SwitchStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init, nil)
		}
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		for i := range s.Body.List {
			s.Body.List[i] = r.stmt(s.Body.List[i], nil)
		}
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init, nil)
		}
		s.Assign = r.stmt(s.Assign, nil)
		for i := range s.Body.List {
			s.Body.List[i] = r.stmt(s.Body.List[i], nil)
		}
	case *ast.SelectStmt:
		return r.selectStmt(s, label)
	case *ast.ForStmt:
		if s.Init != nil {
			s.Init = r.simple(s.Init)
		}
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		if s.Post != nil {
			s.Post = r.simple(s.Post)
		}
		s.Body = r.loopBody(s.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt, s.Label)
		// a select or range became a block: move the label to its last statement
		if b, ok := s.Stmt.(*ast.BlockStmt); ok {
			if k := len(b.List); k > 0 {
				if _, isSel := b.List[k-1].(*ast.SwitchStmt); isSel {
					b.List[k-1] = &ast.LabeledStmt{Label: s.Label, Stmt: b.List[k-1]}
					return b
				}
			}
		}
	case *ast.DeclStmt:
		for _, sp := range s.Decl.(*ast.GenDecl).Specs {
			r.spec(sp)
		}
	}
	return s
}

// simple rewrites the statements of a for header.
func (r *rewriter) simple(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
		return s
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			return r.assign(s)
		}
		r.exprs(s.Lhs)
		r.exprs(s.Rhs)
		return s
	}
	return r.stmt(s, nil)
}

// readWrite writes x = x op y with a scheduling point between read and write.
func (r *rewriter) readWrite(x ast.Expr, op token.Token, y ast.Expr, orig ast.Expr) ast.Stmt {
	p, v := r.tmp(), r.tmp()
	var list []ast.Stmt
	list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{p}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: r.expr(x)}}})
	list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: &ast.ParenExpr{X: &ast.StarExpr{X: p}}, Op: op, Y: &ast.ParenExpr{X: y}}}})
	list = append(list, r.step())
	list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: ast.NewIdent(p.Name)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
	return &ast.BlockStmt{List: list}
}

var opOf = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.XOR_ASSIGN: token.XOR}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (r *rewriter) assign(s *ast.AssignStmt) ast.Stmt {
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := isRecv(s.Rhs[0]); ok {
			r.exprs(s.Lhs)
			s.Rhs[0] = call(sel(r.expr(u.X), "Recv2"))
			return s
		}
	}
	if op, ok := opOf[s.Tok]; ok && r.shared(s.Lhs[0]) && r.addressable(s.Lhs[0]) {
		return r.readWrite(s.Lhs[0], op, r.expr(s.Rhs[0]), s.Rhs[0])
	}
	if s.Tok == token.ASSIGN && len(s.Lhs) == 1 && len(s.Rhs) == 1 && r.shared(s.Lhs[0]) {
		orig := s.Rhs[0]
		if types.Identical(r.p.info.Types[s.Lhs[0]].Type, r.p.info.Types[orig].Type) {
			s.Lhs[0] = r.expr(s.Lhs[0])
			s.Rhs[0] = r.yielded(orig, r.expr(orig))
			return s
		}
	}
	r.exprs(s.Lhs)
	r.exprs(s.Rhs)
	return s
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if lit, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: call(r.rt("Go"), r.expr(lit))}
	}
	var list []ast.Stmt
	def := func(e ast.Expr) ast.Expr {
		t := r.tmp()
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(t.Name)
	}
	isFunc := false // a declared function, or a builtin: no value to evaluate
	f := c.Fun
	for {
		if x, ok := f.(*ast.ParenExpr); ok {
			f = x.X
			continue
		}
		break
	}
	base := f
	if x, ok := base.(*ast.IndexExpr); ok {
		base = x.X
	}
	switch x := base.(type) {
	case *ast.Ident:
		switch r.p.info.Uses[x].(type) {
		case *types.Func, *types.Builtin:
			isFunc = true
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := r.p.info.Uses[id].(*types.PkgName); ok {
				isFunc = true
			}
		}
	}
	var args []ast.Expr
	origFun := c.Fun
	var fun ast.Expr
	if !isFunc {
		fun = def(r.expr(origFun))
	}
	for _, a := range c.Args {
		tv := r.p.info.Types[a]
		if tv.IsNil() || tv.Value != nil || tv.IsType() {
			args = append(args, a)
			continue
		}
		if _, ok := a.(*ast.FuncLit); ok {
			args = append(args, def(r.expr(a)))
			continue
		}
		args = append(args, def(r.expr(a)))
	}
	inner := &ast.CallExpr{Fun: origFun, Args: args, Ellipsis: c.Ellipsis}
	var body ast.Expr = inner
	if fun != nil {
		inner.Fun = fun
	} else if r.builtin(origFun, "close") {
		body = call(sel(args[0], "Close"))
	} else {
		inner.Fun = r.expr(origFun)
	}
	list = append(list, &ast.ExprStmt{X: call(r.rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: body}}}})})
	return &ast.BlockStmt{List: list}
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	if !r.isChan(s.X) {
		if s.Key != nil {
			s.Key = r.expr(s.Key)
		}
		if s.Value != nil {
			s.Value = r.expr(s.Value)
		}
		s.X = r.expr(s.X)
		s.Body = r.loopBody(s.Body)
		return s
	}
	// for c, ok := X, true; ; { v, ok := c.Recv2(); if !ok { break }; ... }
	c, ok := r.tmp(), r.tmp()
	body := r.loopBody(s.Body)
	var get ast.Stmt
	recv := call(sel(ast.NewIdent(c.Name), "Recv2"))
	pre := []ast.Stmt{}
	if s.Key == nil || blank(s.Key) {
		get = &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}}
	} else if s.Tok == token.DEFINE {
		get = &ast.AssignStmt{Lhs: []ast.Expr{s.Key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(s.Key.(*ast.Ident).Name)}})
	} else {
		v := r.tmp()
		get = &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(s.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
	}
	list := []ast.Stmt{get, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}
	list = append(list, pre...)
	list = append(list, body)
	return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(s.X)}}, Body: &ast.BlockStmt{List: list}}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var list []ast.Stmt
	def := func(e ast.Expr) *ast.Ident {
		t := r.tmp()
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return t
	}
	res := r.tmp()
	hasDef := "false"
	var cases []ast.Expr
	sw := &ast.BlockStmt{}
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			sw.List = append(sw.List, &ast.CaseClause{Body: r.stmts(cc.Body)})
			continue
		}
		i := len(cases)
		var pre []ast.Stmt
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			c := def(r.expr(m.Chan))
			cases = append(cases, call(sel(ast.NewIdent(c.Name), "SendCase"), r.expr(m.Value)))
		case *ast.ExprStmt:
			u, _ := isRecv(m.X)
			c := def(r.expr(u.X))
			cases = append(cases, call(sel(ast.NewIdent(c.Name), "RecvCase")))
		case *ast.AssignStmt:
			u, _ := isRecv(m.Rhs[0])
			c := def(r.expr(u.X))
			cases = append(cases, call(sel(ast.NewIdent(c.Name), "RecvCase")))
			got := "Got"
			if len(m.Lhs) == 2 {
				got = "Got2"
			}
			r.exprs(m.Lhs)
			pre = append(pre, &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{call(sel(ast.NewIdent(c.Name), got), ast.NewIdent(res.Name))}})
		}
		sw.List = append(sw.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}}, Body: append(pre, r.stmts(cc.Body)...)})
	}
	if hasDef == "false" {
		sw.List = append(sw.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	}
	args := append([]ast.Expr{ast.NewIdent(hasDef)}, cases...)
	list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{res}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt("Select"), args...)}})
	list = append(list, &ast.SwitchStmt{Tag: sel(ast.NewIdent(res.Name), "I"), Body: sw})
	return &ast.BlockStmt{List: list}
}
