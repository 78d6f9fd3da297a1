// Command refac applies one behaviour-preserving rewrite at every place of the repository where it fits, in place.
// It makes the whole-tree rewrites on which the checks must stay quiet (tools/refac.sh).
//
//	refac -repo DIR -op NAME [-only REGEXP of file:function]
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type rewriter struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	file    *ast.File
	n       int // sites changed
	fresh   int
	decls   []ast.Decl
	fn      *ast.FuncDecl
	renamed *ast.File
	value   map[*types.Func]bool
}

var tag string
var at, site int

func (r *rewriter) name(p string) string { r.fresh++; return fmt.Sprintf("%s%s%d", p, tag, r.fresh) }
func id(s string) *ast.Ident             { return ast.NewIdent(s) }

func main() {
	repo := flag.String("repo", "/repo", "")
	op := flag.String("op", "", "")
	only := flag.String("only", "", "")
	flag.IntVar(&at, "at", -1, "the site to mutate")
	flag.StringVar(&tag, "tag", "", "suffix of new names")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if *list {
		for k := range ops {
			if k != "mutate" {
				fmt.Println(k)
			}
		}
		return
	}
	f, ok := ops[*op]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such op")
		os.Exit(2)
	}
	re := regexp.MustCompile(*only)
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: *repo,
		ParseFile: func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
			return parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
		}}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	total := 0
	for _, p := range pkgs {
		for _, file := range p.Syntax {
			path := p.Fset.Position(file.Package).Filename
			abs, _ := filepath.Abs(*repo)
			src, err := os.ReadFile(path)
			if err != nil || !strings.HasPrefix(path, abs) || bytes.Contains(src, []byte(`import "C"`)) || strings.HasSuffix(path, "_test.go") {
				continue
			}
			r := &rewriter{fset: p.Fset, info: p.TypesInfo, pkg: p.Types, file: file}
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				if !re.MatchString(filepath.Base(path) + ":" + fd.Name.Name) {
					continue
				}
				r.fn = fd
				r.fresh = 0
				f(r, fd)
			}
			if r.n == 0 {
				continue
			}
			total += r.n
			var b bytes.Buffer
			if err := format.Node(&b, p.Fset, file); err != nil {
				panic(err)
			}
			for _, d := range r.decls {
				b.WriteString("\n\n")
				// print with a fresh file set: positions of moved code do not matter
				if err := format.Node(&b, token.NewFileSet(), d); err != nil {
					panic(err)
				}
			}
			out, err := format.Source(b.Bytes())
			if err != nil {
				fmt.Fprintln(os.Stderr, path, err)
				out = b.Bytes()
			}
			os.WriteFile(path, out, 0644)
		}
	}
	if *op == "mutate" && at < 0 {
		total = site
	}
	fmt.Println(*op, total, "sites")
}

var ops = map[string]func(*rewriter, *ast.FuncDecl){
	"ifinvert":   ifInvert,
	"elseflat":   elseFlat,
	"rangeidx":   rangeIdx,
	"argtmp":     argTmp,
	"condtmp":    condTmp,
	"andsplit":   andSplit,
	"bodyhelper": bodyHelper,
	"switchif":   switchIf,
	"forwhile":   forWhile,
	"deferfn":    deferFn,
	"closure":    closure,
	"flip":       flip,
	"rettmp":     retTmp,
	"tailsplit":  tailSplit,
	"named":      named,
	"ifhelper":   ifHelper,
	"condhelper": condHelper,
	"rename":     rename,
	"loopfn":     loopFn,
	"lockfn":     lockFn,
	"lockptr":    lockPtr,
	"gofn":       goFn,
	"ifswitch":   ifSwitch,
	"swapparams": swapParams,
	"mutate":     mutate,
}

// ---- helpers

func (r *rewriter) under(e ast.Expr) types.Type {
	if t := r.info.TypeOf(e); t != nil {
		return t.Underlying()
	}
	return nil
}

func (r *rewriter) isFloat(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (r *rewriter) not(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.not(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return x.X
		}
	case *ast.BinaryExpr:
		neg := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}
		if o, ok := neg[x.Op]; ok && !r.isFloat(x.X) && !r.isFloat(x.Y) {
			return &ast.BinaryExpr{X: x.X, Op: o, Y: x.Y}
		}
		if x.Op == token.LAND {
			return &ast.ParenExpr{X: &ast.BinaryExpr{X: r.not(x.X), Op: token.LOR, Y: r.not(x.Y)}}
		}
		if x.Op == token.LOR {
			return &ast.BinaryExpr{X: &ast.ParenExpr{X: r.not(x.X)}, Op: token.LAND, Y: &ast.ParenExpr{X: r.not(x.Y)}}
		}
	}
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

func hasFlow(n ast.Node, ret bool) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			if ret {
				found = true
			}
		case *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt:
			_ = x
			found = true
		case *ast.CallExpr:
			if i, ok := x.Fun.(*ast.Ident); ok && i.Name == "recover" {
				found = true
			}
		}
		return !found
	})
	return found
}

func hasTok(n ast.Node, toks ...token.Token) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BranchStmt:
			for _, t := range toks {
				if x.Tok == t {
					found = true
				}
			}
		case *ast.LabeledStmt:
			found = true
		}
		return !found
	})
	return found
}

func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch x := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok == token.CONTINUE || x.Tok == token.BREAK
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			if i, ok := c.Fun.(*ast.Ident); ok && i.Name == "panic" {
				return true
			}
		}
	}
	return false
}

// blocks applies f to every statement list.
func blocks(n ast.Node, f func([]ast.Stmt) []ast.Stmt) {
	astutil.Apply(n, nil, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.BlockStmt:
			x.List = f(x.List)
		case *ast.CaseClause:
			x.Body = f(x.Body)
		case *ast.CommClause:
			x.Body = f(x.Body)
		}
		return true
	})
}

func (r *rewriter) typeExpr(t types.Type) (ast.Expr, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		for _, im := range r.file.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil, false
	}
	clear := func(n ast.Node) bool { return true }
	ast.Inspect(e, clear)
	return e, ok
}

// ---- rewrites

func ifInvert(r *rewriter, fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		x, ok := c.Node().(*ast.IfStmt)
		if !ok {
			return true
		}
		switch e := x.Else.(type) {
		case nil:
			if terminates(x.Body.List) {
				return true
			}
			x.Else = x.Body
			x.Body = &ast.BlockStmt{}
		case *ast.BlockStmt:
			x.Body, x.Else = e, x.Body
		default:
			x.Else, x.Body = x.Body, &ast.BlockStmt{List: []ast.Stmt{e}}
		}
		x.Cond = r.not(x.Cond)
		r.n++
		return true
	})
}

func elseFlat(r *rewriter, fd *ast.FuncDecl) {
	blocks(fd.Body, func(l []ast.Stmt) []ast.Stmt {
		for i := len(l) - 2; i >= 0; i-- {
			x, ok := l[i].(*ast.IfStmt)
			if !ok || x.Else != nil || !terminates(x.Body.List) || x.Init != nil {
				continue
			}
			rest := append([]ast.Stmt{}, l[i+1:]...)
			x.Else = &ast.BlockStmt{List: rest}
			l = l[:i+1]
			r.n++
		}
		return l
	})
	if fd.Type.Results != nil {
		// for {} tails stay terminating; nothing to do
	}
}

func (r *rewriter) isSlice(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func rangeIdx(r *rewriter, fd *ast.FuncDecl) {
	blocks(fd.Body, func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			x, ok := s.(*ast.RangeStmt)
			if !ok || x.Tok != token.DEFINE || !r.isSlice(x.X) {
				out = append(out, s)
				continue
			}
			xs := r.name("xs")
			k, isId := x.Key.(*ast.Ident)
			if !isId {
				out = append(out, s)
				continue
			}
			kn := k.Name
			if kn == "_" {
				kn = r.name("at")
			}
			body := x.Body.List
			if v, ok := x.Value.(*ast.Ident); ok && v.Name != "_" {
				body = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(v.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(xs), Index: id(kn)}}}}, body...)
			}
			out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(xs)}, Tok: token.DEFINE, Rhs: []ast.Expr{x.X}},
				&ast.ForStmt{
					Init: &ast.AssignStmt{Lhs: []ast.Expr{id(kn)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
					Cond: &ast.BinaryExpr{X: id(kn), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{id(xs)}}},
					Post: &ast.IncDecStmt{X: id(kn), Tok: token.INC},
					Body: &ast.BlockStmt{List: body},
				})
			r.n++
		}
		return out
	})
}

func plain(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return plain(x.X)
	}
	return false
}

func (r *rewriter) single(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil || tv.IsType() || tv.IsVoid() || tv.IsBuiltin() || tv.Value != nil {
		return false
	}
	_, tuple := tv.Type.(*types.Tuple)
	return !tuple
}

func argTmp(r *rewriter, fd *ast.FuncDecl) {
	blocks(fd.Body, func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			var call *ast.CallExpr
			switch x := s.(type) {
			case *ast.ExprStmt:
				call, _ = x.X.(*ast.CallExpr)
			case *ast.AssignStmt:
				if len(x.Rhs) == 1 && plain(x.Lhs[0]) {
					call, _ = x.Rhs[0].(*ast.CallExpr)
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					call, _ = x.Results[0].(*ast.CallExpr)
				}
			}
			if call != nil && plain(call.Fun) && !call.Ellipsis.IsValid() {
				if tv := r.info.Types[call.Fun]; !tv.IsType() {
					for i, a := range call.Args {
						switch a.(type) {
						case *ast.CallExpr, *ast.BinaryExpr, *ast.SliceExpr:
							if !r.single(a) {
								goto done
							}
							t := r.info.TypeOf(a)
							if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
								goto done
							}
							n := r.name("arg")
							out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
							call.Args[i] = id(n)
							r.n++
						case *ast.Ident, *ast.BasicLit:
						default:
							goto done
						}
					}
				}
			}
		done:
			out = append(out, s)
		}
		return out
	})
}

func condTmp(r *rewriter, fd *ast.FuncDecl) {
	blocks(fd.Body, func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			if x, ok := s.(*ast.IfStmt); ok && x.Init == nil {
				n := r.name("holds")
				out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{x.Cond}})
				x.Cond = id(n)
				r.n++
			}
			out = append(out, s)
		}
		return out
	})
}

func andSplit(r *rewriter, fd *ast.FuncDecl) {
	blocks(fd.Body, func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			x, ok := s.(*ast.IfStmt)
			if !ok || x.Else != nil {
				out = append(out, s)
				continue
			}
			b, ok := x.Cond.(*ast.BinaryExpr)
			switch {
			case ok && b.Op == token.LAND:
				x.Cond = b.X
				x.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: x.Body}}}
				r.n++
				out = append(out, x)
			case ok && b.Op == token.LOR && x.Init == nil && terminates(x.Body.List) && len(x.Body.List) == 1:
				x.Cond = b.X
				r.n++
				out = append(out, x, &ast.IfStmt{Cond: b.Y, Body: &ast.BlockStmt{List: x.Body.List}})
			default:
				out = append(out, s)
			}
		}
		return out
	})
}

func usesRecover(fd *ast.FuncDecl) bool {
	found := false
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok && i.Name == "recover" {
			found = true
		}
		return true
	})
	return found
}

func bodyHelper(r *rewriter, fd *ast.FuncDecl) {
	if fd.Name.Name == "main" || fd.Name.Name == "init" || len(fd.Body.List) < 2 || fd.Type.TypeParams != nil {
		return
	}
	hn := fd.Name.Name + "Body" + tag
	if ast.IsExported(hn) {
		hn = "do" + hn
	}
	var args []ast.Expr
	ell := token.NoPos
	for _, f := range fd.Type.Params.List {
		if len(f.Names) == 0 {
			f.Names = []*ast.Ident{id(r.name("p"))}
		}
		for _, n := range f.Names {
			if n.Name == "_" {
				n.Name = r.name("p")
			}
			args = append(args, id(n.Name))
		}
		if _, ok := f.Type.(*ast.Ellipsis); ok {
			ell = 1
		}
	}
	var fun ast.Expr = id(hn)
	if fd.Recv != nil {
		f := fd.Recv.List[0]
		if len(f.Names) == 0 {
			f.Names = []*ast.Ident{id("self")}
		}
		if f.Names[0].Name == "_" {
			f.Names[0].Name = "self"
		}
		fun = &ast.SelectorExpr{X: id(f.Names[0].Name), Sel: id(hn)}
	}
	r.decls = append(r.decls, &ast.FuncDecl{Recv: fd.Recv, Name: id(hn), Type: fd.Type, Body: fd.Body})
	call := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: ell}
	var s ast.Stmt = &ast.ExprStmt{X: call}
	if fd.Type.Results != nil {
		s = &ast.ReturnStmt{Results: []ast.Expr{call}}
	}
	fd.Body = &ast.BlockStmt{List: []ast.Stmt{s}}
	r.n++
}

func switchIf(r *rewriter, fd *ast.FuncDecl) {
	blocks(fd.Body, func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			x, ok := s.(*ast.SwitchStmt)
			if !ok || x.Init != nil || hasTok(x.Body, token.BREAK, token.FALLTHROUGH) || len(x.Body.List) == 0 {
				out = append(out, s)
				continue
			}
			var pre []ast.Stmt
			tag := x.Tag
			if tag != nil && !plain(tag) {
				n := r.name("tag")
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{tag}})
				tag = id(n)
			}
			var def *ast.BlockStmt
			var first, last *ast.IfStmt
			for _, c := range x.Body.List {
				cc := c.(*ast.CaseClause)
				b := &ast.BlockStmt{List: cc.Body}
				if cc.List == nil {
					def = b
					continue
				}
				var cond ast.Expr
				for _, e := range cc.List {
					var t ast.Expr = e
					if tag != nil {
						t = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: &ast.ParenExpr{X: e}}
					} else {
						t = &ast.ParenExpr{X: e}
					}
					if cond == nil {
						cond = t
					} else {
						cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: t}
					}
				}
				i := &ast.IfStmt{Cond: cond, Body: b}
				if first == nil {
					first = i
				} else {
					last.Else = i
				}
				last = i
			}
			if first == nil {
				out = append(out, s)
				continue
			}
			if def != nil {
				last.Else = def
			}
			out = append(out, pre...)
			out = append(out, first)
			r.n++
		}
		return out
	})
}

func forWhile(r *rewriter, fd *ast.FuncDecl) {
	blocks(fd.Body, func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			x, ok := s.(*ast.ForStmt)
			if !ok || x.Cond == nil || hasTok(x.Body, token.CONTINUE, token.GOTO) {
				out = append(out, s)
				continue
			}
			body := []ast.Stmt{&ast.IfStmt{Cond: r.not(x.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}
			body = append(body, x.Body.List...)
			if x.Post != nil && !terminates(x.Body.List) {
				body = append(body, x.Post)
			}
			loop := &ast.ForStmt{Body: &ast.BlockStmt{List: body}}
			r.n++
			if x.Init != nil {
				out = append(out, &ast.BlockStmt{List: []ast.Stmt{x.Init, loop}})
			} else {
				out = append(out, loop)
			}
		}
		return out
	})
}

func deferFn(r *rewriter, fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if d, ok := n.(*ast.DeferStmt); ok && len(d.Call.Args) == 0 {
			if _, lit := d.Call.Fun.(*ast.FuncLit); !lit {
				d.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: d.Call}}}}}
				r.n++
			}
		}
		return true
	})
}

func closure(r *rewriter, fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		x, ok := n.(*ast.IfStmt)
		if !ok || len(x.Body.List) == 0 || hasFlow(x.Body, true) {
			return true
		}
		x.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: x.Body}}}}}
		r.n++
		return true
	})
}

func flip(r *rewriter, fd *ast.FuncDecl) {
	m := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		x, ok := n.(*ast.BinaryExpr)
		if !ok {
			return true
		}
		if o, ok := m[x.Op]; ok {
			_, c1 := x.X.(*ast.CallExpr)
			_, c2 := x.Y.(*ast.CallExpr)
			if c1 && c2 {
				return true
			}
			x.X, x.Y, x.Op = x.Y, x.X, o
			r.n++
		}
		return true
	})
}

func retTmp(r *rewriter, fd *ast.FuncDecl) {
	if fd.Type.Results == nil {
		return
	}
	blocksOf(fd.Body, func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			x, ok := s.(*ast.ReturnStmt)
			if !ok || len(x.Results) != fd.Type.Results.NumFields() {
				out = append(out, s)
				continue
			}
			i := 0
			for _, f := range fd.Type.Results.List {
				k := len(f.Names)
				if k == 0 {
					k = 1
				}
				for ; k > 0; k-- {
					n := r.name("ret")
					out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(n)}, Type: f.Type, Values: []ast.Expr{x.Results[i]}}}}})
					x.Results[i] = id(n)
					i++
				}
			}
			r.n++
			out = append(out, x)
		}
		return out
	})
}

// blocksOf is blocks without the bodies of function literals.
func blocksOf(n ast.Node, f func([]ast.Stmt) []ast.Stmt) {
	astutil.Apply(n, func(c *astutil.Cursor) bool { _, lit := c.Node().(*ast.FuncLit); return !lit }, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.BlockStmt:
			x.List = f(x.List)
		case *ast.CaseClause:
			x.Body = f(x.Body)
		case *ast.CommClause:
			x.Body = f(x.Body)
		}
		return true
	})
}

// named turns unnamed results into named ones, assigned before a bare return.
func named(r *rewriter, fd *ast.FuncDecl) {
	if fd.Type.Results == nil || usesRecover(fd) {
		return
	}
	var names []string
	for _, f := range fd.Type.Results.List {
		if len(f.Names) > 0 {
			return
		}
		n := r.name("out")
		f.Names = []*ast.Ident{id(n)}
		names = append(names, n)
	}
	blocksOf(fd.Body, func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			x, ok := s.(*ast.ReturnStmt)
			if !ok || len(x.Results) == 0 {
				out = append(out, s)
				continue
			}
			var lhs []ast.Expr
			for _, n := range names {
				lhs = append(lhs, id(n))
			}
			out = append(out, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: x.Results}, &ast.ReturnStmt{})
		}
		return out
	})
	r.n++
}

// free lists the local variables of fd used in the nodes and declared outside them; assigned tells which are written.
func (r *rewriter) free(fd *ast.FuncDecl, nodes []ast.Stmt) (vars []*types.Var, assigned map[*types.Var]bool) {
	assigned = map[*types.Var]bool{}
	seen := map[*types.Var]bool{}
	lo, hi := nodes[0].Pos(), nodes[len(nodes)-1].End()
	for _, n := range nodes {
		ast.Inspect(n, func(m ast.Node) bool {
			mark := func(e ast.Expr) {
				for {
					switch x := e.(type) {
					case *ast.ParenExpr:
						e = x.X
						continue
					case *ast.SelectorExpr:
						if _, p := r.under(x.X).(*types.Pointer); p {
							return
						}
						e = x.X
						continue
					case *ast.IndexExpr:
						if _, p := r.under(x.X).(*types.Array); !p {
							return
						}
						e = x.X
						continue
					case *ast.SliceExpr:
						if _, p := r.under(x.X).(*types.Array); !p {
							return
						}
						e = x.X
						continue
					case *ast.Ident:
						if v, ok := r.info.ObjectOf(x).(*types.Var); ok {
							assigned[v] = true
						}
					}
					return
				}
			}
			switch x := m.(type) {
			case *ast.Ident:
				if v, ok := r.info.ObjectOf(x).(*types.Var); ok && !v.IsField() && v.Pkg() == r.pkg && v.Parent() != r.pkg.Scope() && !(v.Pos() >= lo && v.Pos() < hi) && v.Pos() >= fd.Pos() && v.Pos() < fd.End() && !seen[v] {
					seen[v] = true
					vars = append(vars, v)
				}
			case *ast.AssignStmt:
				for _, e := range x.Lhs {
					mark(e)
				}
			case *ast.IncDecStmt:
				mark(x.X)
			case *ast.RangeStmt:
				if x.Tok == token.ASSIGN {
					mark(x.Key)
					if x.Value != nil {
						mark(x.Value)
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					mark(x.X)
				}
			case *ast.SliceExpr:
				mark(x)
			case *ast.SelectorExpr:
				// a method with a pointer receiver takes the address
				if s := r.info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
					if sig := s.Obj().Type().(*types.Signature); sig.Recv() != nil {
						if _, p := sig.Recv().Type().(*types.Pointer); p {
							if _, q := s.Recv().(*types.Pointer); !q {
								mark(x.X)
							}
						}
					}
				}
			}
			return true
		})
	}
	return
}

func (r *rewriter) helper(fd *ast.FuncDecl, name string, vars []*types.Var, res *ast.FieldList, body []ast.Stmt) (*ast.CallExpr, bool) {
	ft := &ast.FuncType{Params: &ast.FieldList{}, Results: res}
	var args []ast.Expr
	for _, v := range vars {
		t, ok := r.typeExpr(v.Type())
		if !ok {
			return nil, false
		}
		ft.Params.List = append(ft.Params.List, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: t})
		args = append(args, id(v.Name()))
	}
	r.decls = append(r.decls, &ast.FuncDecl{Name: id(name), Type: ft, Body: &ast.BlockStmt{List: body}})
	return &ast.CallExpr{Fun: id(name), Args: args}, true
}

func (r *rewriter) prefix(fd *ast.FuncDecl) string {
	p := fd.Name.Name
	if fd.Recv != nil {
		t := fd.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if i, ok := t.(*ast.Ident); ok {
			p = strings.ToLower(i.Name) + p
		}
	}
	return p
}

// tailSplit moves the second half of a function into a function of its own.
func tailSplit(r *rewriter, fd *ast.FuncDecl) {
	l := fd.Body.List
	if len(l) < 3 || usesRecover(fd) || fd.Type.TypeParams != nil {
		return
	}
	if fd.Type.Results != nil {
		for _, f := range fd.Type.Results.List {
			if len(f.Names) > 0 {
				return
			}
		}
		if _, ok := l[len(l)-1].(*ast.ReturnStmt); !ok {
			return
		}
	}
	k := len(l) / 2
	ok := true
	for _, s := range l[:k] {
		ast.Inspect(s, func(n ast.Node) bool {
			if _, lit := n.(*ast.FuncLit); lit {
				ok = false
			}
			if u, is := n.(*ast.UnaryExpr); is && u.Op == token.AND {
				if _, lit := u.X.(*ast.CompositeLit); !lit {
					ok = false
				}
			}
			return true
		})
	}
	for _, s := range l {
		ast.Inspect(s, func(n ast.Node) bool {
			if _, is := n.(*ast.LabeledStmt); is {
				ok = false
			}
			return true
		})
	}
	for _, s := range l[k:] {
		ast.Inspect(s, func(n ast.Node) bool {
			if _, is := n.(*ast.DeferStmt); is {
				ok = false // would run in the helper, before the deferred calls of the head: same order, but keep to the simple ones
			}
			return true
		})
	}
	if !ok {
		return
	}
	vars, _ := r.free(fd, l[k:])
	for _, v := range vars {
		// a variable holding a struct that is not to be copied
		if strings.Contains(v.Type().String(), "sync.") {
			return
		}
	}
	call, good := r.helper(fd, r.prefix(fd)+"Rest"+tag, vars, fd.Type.Results, append([]ast.Stmt{}, l[k:]...))
	if !good {
		return
	}
	var s ast.Stmt = &ast.ExprStmt{X: call}
	if fd.Type.Results != nil {
		s = &ast.ReturnStmt{Results: []ast.Expr{call}}
	}
	fd.Body.List = append(append([]ast.Stmt{}, l[:k]...), s)
	r.n++
}

// ifHelper moves the bodies of ifs that write no local into functions of their own.
func ifHelper(r *rewriter, fd *ast.FuncDecl) {
	if fd.Type.TypeParams != nil {
		return
	}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if _, lit := n.(*ast.FuncLit); lit {
			return false
		}
		x, ok := n.(*ast.IfStmt)
		if !ok || len(x.Body.List) == 0 {
			return true
		}
		ret := terminates(x.Body.List)
		if ret {
			if _, is := x.Body.List[len(x.Body.List)-1].(*ast.ReturnStmt); !is {
				return true
			}
			inner := x.Body.List[:len(x.Body.List)-1]
			for _, s := range inner {
				if hasFlow(s, true) {
					return true
				}
			}
			if fd.Type.Results == nil {
				return true
			}
			for _, f := range fd.Type.Results.List {
				if len(f.Names) > 0 {
					return true
				}
			}
		} else if hasFlow(x.Body, true) {
			return true
		}
		vars, as := r.free(fd, x.Body.List)
		for _, v := range vars {
			if as[v] || strings.Contains(v.Type().String(), "sync.") {
				return true
			}
		}
		res := fd.Type.Results
		if !ret {
			res = nil
		}
		call, good := r.helper(fd, r.name(r.prefix(fd)+"Case"), vars, res, x.Body.List)
		if !good {
			return true
		}
		var s ast.Stmt = &ast.ExprStmt{X: call}
		if ret {
			s = &ast.ReturnStmt{Results: []ast.Expr{call}}
		}
		x.Body = &ast.BlockStmt{List: []ast.Stmt{s}}
		r.n++
		return false
	})
}

// condHelper moves conditions into predicates.
func condHelper(r *rewriter, fd *ast.FuncDecl) {
	if fd.Type.TypeParams != nil {
		return
	}
	do := func(e ast.Expr) ast.Expr {
		b, ok := e.(*ast.BinaryExpr)
		if !ok {
			return e
		}
		if i, ok := b.Y.(*ast.Ident); ok && i.Name == "nil" && b.Op != token.LAND && b.Op != token.LOR {
			return e
		}
		st := &ast.ExprStmt{X: e}
		vars, as := r.free(fd, []ast.Stmt{st})
		for _, v := range vars {
			if as[v] || strings.Contains(v.Type().String(), "sync.") {
				return e
			}
		}
		call, good := r.helper(fd, r.name(r.prefix(fd)+"Holds"), vars, &ast.FieldList{List: []*ast.Field{{Type: id("bool")}}}, []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{e}}})
		if !good {
			return e
		}
		r.n++
		return call
	}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.IfStmt:
			x.Cond = do(x.Cond)
		case *ast.ForStmt:
			if x.Cond != nil {
				x.Cond = do(x.Cond)
			}
		}
		return true
	})
}

// rename gives every unexported function, method, type, field, variable and constant of the package another name.
func rename(r *rewriter, fd *ast.FuncDecl) {
	if r.renamed == r.file {
		return
	}
	r.renamed = r.file
	ast.Inspect(r.file, func(n ast.Node) bool {
		i, ok := n.(*ast.Ident)
		if !ok || ast.IsExported(i.Name) || i.Name == "_" || i.Name == "main" || i.Name == "init" {
			return true
		}
		o := r.info.ObjectOf(i)
		if o == nil || o.Pkg() != r.pkg {
			return true
		}
		switch x := o.(type) {
		case *types.Var:
			if n, ok := types.Unalias(x.Type()).(*types.Basic); ok && x.Embedded() && n != nil {
				return true
			}
			if !x.IsField() && x.Parent() != r.pkg.Scope() {
				return true
			}
		case *types.Func, *types.TypeName, *types.Const:
			if o.Parent() != nil && o.Parent() != r.pkg.Scope() {
				return true
			}
		default:
			return true
		}
		i.Name = "zz" + strings.ToUpper(i.Name[:1]) + i.Name[1:]
		r.n++
		return true
	})
}

// loopFn moves loop bodies without jumps into function literals.
func loopFn(r *rewriter, fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		var b **ast.BlockStmt
		switch x := n.(type) {
		case *ast.ForStmt:
			b = &x.Body
		case *ast.RangeStmt:
			b = &x.Body
		default:
			return true
		}
		if hasFlow(*b, true) || len((*b).List) == 0 {
			return true
		}
		*b = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: *b}}}}}
		r.n++
		return true
	})
}

func lockPair(l []ast.Stmt, i int) (mu ast.Expr, read bool) {
	if i+1 >= len(l) {
		return
	}
	e, ok1 := l[i].(*ast.ExprStmt)
	d, ok2 := l[i+1].(*ast.DeferStmt)
	if !ok1 || !ok2 {
		return
	}
	c, ok := e.X.(*ast.CallExpr)
	if !ok {
		return
	}
	s1, ok1 := c.Fun.(*ast.SelectorExpr)
	s2, ok2 := d.Call.Fun.(*ast.SelectorExpr)
	if !ok1 || !ok2 {
		return
	}
	switch s1.Sel.Name + s2.Sel.Name {
	case "LockUnlock":
		return s1.X, false
	case "RLockRUnlock":
		return s1.X, true
	}
	return
}

func (r *rewriter) addr(mu ast.Expr) ast.Expr {
	if _, p := r.under(mu).(*types.Pointer); p {
		return mu
	}
	return &ast.UnaryExpr{Op: token.AND, X: mu}
}

// lockFn takes and releases locks through one helper that returns the release.
func lockFn(r *rewriter, fd *ast.FuncDecl) {
	l := fd.Body.List
	for i := range l {
		mu, read := lockPair(l, i)
		if mu == nil {
			continue
		}
		n := r.prefix(fd) + r.name("Acquire")
		lock, unlock := "Lock", "Unlock"
		if read {
			lock, unlock = "RLock", "RUnlock"
		}
		nullary := &ast.FuncType{Params: &ast.FieldList{}}
		te := &ast.InterfaceType{Methods: &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{id(lock)}, Type: nullary}, {Names: []*ast.Ident{id(unlock)}, Type: nullary}}}}
		r.decls = append(r.decls, &ast.FuncDecl{Name: id(n), Type: &ast.FuncType{
			Params:  &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{id("mu")}, Type: te}}},
			Results: &ast.FieldList{List: []*ast.Field{{Type: &ast.FuncType{Params: &ast.FieldList{}}}}}},
			Body: &ast.BlockStmt{List: []ast.Stmt{
				&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: id("mu"), Sel: id(lock)}}},
				&ast.ReturnStmt{Results: []ast.Expr{&ast.SelectorExpr{X: id("mu"), Sel: id(unlock)}}}}}})
		fd.Body.List = append(append(append([]ast.Stmt{}, l[:i]...), &ast.DeferStmt{Call: &ast.CallExpr{Fun: &ast.CallExpr{Fun: id(n), Args: []ast.Expr{r.addr(mu)}}}}), l[i+2:]...)
		r.n++
		return
	}
}

// lockPtr uses locks through a local pointer.
func lockPtr(r *rewriter, fd *ast.FuncDecl) {
	l := fd.Body.List
	for i := range l {
		mu, _ := lockPair(l, i)
		if mu == nil {
			continue
		}
		n := r.name("mu")
		l[i].(*ast.ExprStmt).X.(*ast.CallExpr).Fun.(*ast.SelectorExpr).X = id(n)
		l[i+1].(*ast.DeferStmt).Call.Fun.(*ast.SelectorExpr).X = id(n)
		fd.Body.List = append(append(append([]ast.Stmt{}, l[:i]...), &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.addr(mu)}}), l[i:]...)
		r.n++
		return
	}
}

// goFn starts goroutines through function literals.
func goFn(r *rewriter, fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if g, ok := n.(*ast.GoStmt); ok {
			if _, lit := g.Call.Fun.(*ast.FuncLit); !lit && plain(g.Call.Fun) {
				if s, ok := g.Call.Fun.(*ast.SelectorExpr); len(g.Call.Args) > 0 || ok && r.info.Types[s.X].Type == nil {
					return true // what the call is made on is read where the goroutine starts
				}
				g.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: g.Call}}}}}
				r.n++
			}
		}
		return true
	})
}

// ifSwitch turns ifs into switches.
func ifSwitch(r *rewriter, fd *ast.FuncDecl) {
	blocks(fd.Body, func(l []ast.Stmt) []ast.Stmt {
		for i, s := range l {
			x, ok := s.(*ast.IfStmt)
			if !ok || hasTok(x, token.BREAK) {
				continue
			}
			sw := &ast.SwitchStmt{Init: x.Init, Body: &ast.BlockStmt{}}
			for {
				sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{x.Cond}, Body: x.Body.List})
				e, chain := x.Else.(*ast.IfStmt)
				if chain && e.Init == nil {
					x = e
					continue
				}
				if x.Else != nil {
					var body []ast.Stmt
					if b, ok := x.Else.(*ast.BlockStmt); ok {
						body = b.List
					} else {
						body = []ast.Stmt{x.Else}
					}
					sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: body})
				}
				break
			}
			l[i] = sw
			r.n++
		}
		return l
	})
}

// swapParams reverses the parameters of unexported functions.
func swapParams(r *rewriter, fd *ast.FuncDecl) {
	fits := func(f *types.Func) bool {
		sig := f.Type().(*types.Signature)
		return f != nil && !ast.IsExported(f.Name()) && f.Pkg() == r.pkg && !sig.Variadic() && sig.Params().Len() > 1 && !r.value[f]
	}
	if r.value == nil {
		r.value = map[*types.Func]bool{}
	}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		var i *ast.Ident
		switch x := c.Fun.(type) {
		case *ast.Ident:
			i = x
		case *ast.SelectorExpr:
			i = x.Sel
		}
		if i == nil {
			return true
		}
		f, ok := r.info.Uses[i].(*types.Func)
		if !ok || !fits(f) || len(c.Args) != f.Type().(*types.Signature).Params().Len() {
			return true
		}
		for a, b := 0, len(c.Args)-1; a < b; a, b = a+1, b-1 {
			c.Args[a], c.Args[b] = c.Args[b], c.Args[a]
		}
		r.n++
		return true
	})
	f, ok := r.info.Defs[fd.Name].(*types.Func)
	if !ok || !fits(f) {
		return
	}
	var fl []*ast.Field
	for _, p := range fd.Type.Params.List {
		for _, n := range p.Names {
			fl = append([]*ast.Field{{Names: []*ast.Ident{n}, Type: p.Type}}, fl...)
		}
	}
	fd.Type.Params.List = fl
	r.n++
}

// mutate makes the change number -at: not a rewrite that keeps the behaviour, but a small bug.
func mutate(r *rewriter, fd *ast.FuncDecl) {
	hit := func(n ast.Node, what string) bool {
		site++
		if site-1 != at {
			return false
		}
		r.n++
		fmt.Println(at, r.fset.Position(n.Pos()), fd.Name.Name, what)
		return true
	}
	swap := map[token.Token]token.Token{token.LSS: token.LEQ, token.LEQ: token.LSS, token.GTR: token.GEQ, token.GEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL, token.LAND: token.LOR, token.LOR: token.LAND, token.ADD: token.SUB, token.SUB: token.ADD, token.SHL: token.SHR, token.AND: token.OR}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BinaryExpr:
			if o, ok := swap[x.Op]; ok && hit(x, x.Op.String()+" to "+o.String()) {
				x.Op = o
			}
		case *ast.BasicLit:
			if x.Kind == token.INT && hit(x, x.Value+" plus one") {
				x.Value = "(" + x.Value + "+1)"
			}
		case *ast.Ident:
			if x.Name == "true" && hit(x, "true to false") {
				x.Name = "false"
			} else if x.Name == "false" && hit(x, "false to true") {
				x.Name = "true"
			}
		case *ast.ReturnStmt:
			if k := len(x.Results) - 1; k >= 0 {
				if i, ok := x.Results[k].(*ast.Ident); ok && i.Name != "nil" && i.Name != "true" && i.Name != "false" && types.IsInterface(r.info.TypeOf(i)) && hit(x, i.Name+" to nil") {
					x.Results[k] = id("nil")
				}
			}
		}
		return true
	})
	blocks(fd.Body, func(l []ast.Stmt) []ast.Stmt {
		for i, s := range l {
			switch x := s.(type) {
			case *ast.IfStmt:
				if x.Else != nil {
					continue
				}
			case *ast.AssignStmt:
				if x.Tok == token.DEFINE {
					continue
				}
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt, *ast.GoStmt, *ast.BranchStmt:
			default:
				continue
			}
			if hit(s, "deleted") {
				return append(append([]ast.Stmt{}, l[:i]...), l[i+1:]...)
			}
		}
		return l
	})
}
