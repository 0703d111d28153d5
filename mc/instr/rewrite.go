package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// id makes a fresh identifier.
func (r *rw) id(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("vc%s%d", p, r.n))
}

func (r *rw) vs(name string) ast.Expr {
	r.f.vs = true
	return &ast.SelectorExpr{X: ast.NewIdent("vcvs"), Sel: ast.NewIdent(name)}
}

func (r *rw) vcall(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.vs(name), Args: args}
}

func (r *rw) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func core(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rw) isChan(e ast.Expr) *types.Chan {
	c, _ := core(r.typ(e)).(*types.Chan)
	return c
}

func (r *rw) isMap(e ast.Expr) bool {
	_, ok := core(r.typ(e)).(*types.Map)
	return ok
}

func (r *rw) builtin(fun ast.Expr) string {
	if id, ok := unparen(fun).(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			return id.Name
		}
	}
	return ""
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// ---- declarations ------------------------------------------------------

func (r *rw) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			if s.Type != nil {
				s.Type = r.expr(s.Type)
			}
			if d.Tok == token.CONST {
				continue
			}
			if len(s.Names) == 2 && len(s.Values) == 1 {
				s.Values[0] = r.commaOk(s.Values[0])
				continue
			}
			r.exprs(s.Values)
		case *ast.TypeSpec:
			s.Type = r.expr(s.Type)
		}
	}
}

func (r *rw) fields(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = r.expr(f.Type)
	}
}

func (r *rw) funcType(t *ast.FuncType) {
	r.fields(t.Params)
	r.fields(t.Results)
}

// ---- statements --------------------------------------------------------

func (r *rw) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	for i, s := range l {
		l[i] = r.stmt(s)
	}
	return l
}

func (r *rw) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return r.stmt(s)
}

func (r *rw) commaOk(e ast.Expr) ast.Expr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return r.vcall("Recv2", r.expr(u.X))
	}
	if x, ok := unparen(e).(*ast.IndexExpr); ok && r.isMap(x.X) {
		return r.mapIndex(x, false)
	}
	return r.expr(e)
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			s.Rhs[0] = r.commaOk(s.Rhs[0])
		} else {
			r.exprs(s.Rhs)
		}
		if s.Tok != token.DEFINE {
			for i := range s.Lhs {
				s.Lhs[i] = r.lhs(s.Lhs[i])
			}
		}
		return s
	case *ast.BlockStmt:
		r.block(s)
		return s
	case *ast.BranchStmt, *ast.EmptyStmt:
		return s
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			r.genDecl(g)
		}
		return s
	case *ast.DeferStmt:
		s.Call = r.call(s.Call)
		return s
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
		return s
	case *ast.ForStmt:
		s.Init = r.simple(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		s.Post = r.simple(s.Post)
		r.block(s.Body)
		return s
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.IfStmt:
		s.Init = r.simple(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.simple(s.Else)
		return s
	case *ast.IncDecStmt:
		s.X = r.lhs(s.X)
		return s
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
		return s
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.ReturnStmt:
		r.exprs(s.Results)
		return s
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.SendStmt:
		pos := s.Pos()
		c := &ast.CallExpr{Fun: r.vcall("Send", r.expr(s.Chan)), Args: []ast.Expr{r.expr(s.Value)}}
		setPos(c, pos)
		return &ast.ExprStmt{X: c}
	case *ast.SwitchStmt:
		s.Init = r.simple(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		r.clauses(s.Body)
		return s
	case *ast.TypeSwitchStmt:
		s.Init = r.simple(s.Init)
		switch a := s.Assign.(type) {
		case *ast.AssignStmt:
			ta := unparen(a.Rhs[0]).(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		case *ast.ExprStmt:
			ta := unparen(a.X).(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		}
		r.clauses(s.Body)
		return s
	}
	fatal("unknown statement %T", s)
	return nil
}

func setPos(c *ast.CallExpr, p token.Pos) {
	// keep the line of the original statement
	var e ast.Expr = c
	for {
		switch x := e.(type) {
		case *ast.CallExpr:
			e = x.Fun
			continue
		case *ast.SelectorExpr:
			e = x.X
			continue
		case *ast.Ident:
			x.NamePos = p
		}
		return
	}
}

func (r *rw) clauses(b *ast.BlockStmt) {
	for _, s := range b.List {
		c := s.(*ast.CaseClause)
		r.exprs(c.List)
		c.Body = r.stmts(c.Body)
	}
}

func define(l []ast.Expr, rhs ...ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: rhs}
}

func (r *rw) inlineArg(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil() || tv.IsType())
}

// goStmt: go f(a...) -> { vf, va := f, a...; vs.Go(site, sym, func() { vf(va...) }) }
func (r *rw) goStmt(s *ast.GoStmt) ast.Stmt {
	call := s.Call
	pos := r.fset.Position(s.Pos())
	site := r.fnName + ":" + strconv.Itoa(pos.Line)
	_ = pos
	site = "go@" + r.fnName
	b := &ast.BlockStmt{}
	if n := r.builtin(call.Fun); n != "" {
		b.List = []ast.Stmt{&ast.ExprStmt{X: r.vcall("Go", &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(site)}, ast.NewIdent("nil"),
			&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.expr(call)}}}})}}
		return b
	}
	var sym []ast.Expr
	symOK := true
	tv, isType := r.info.Types[call.Fun]
	_ = tv
	_ = isType
	var fun ast.Expr
	switch f := unparen(call.Fun).(type) {
	case *ast.FuncLit:
		symOK = false
		site += "/func"
		v := r.id("f")
		b.List = append(b.List, define([]ast.Expr{v}, r.expr(call.Fun)))
		fun = v
	case *ast.SelectorExpr:
		site += "/" + f.Sel.Name
		if sel, ok := r.info.Selections[f]; ok && sel.Kind() == types.MethodVal {
			if _, isPtr := core(r.typ(f.X)).(*types.Pointer); isPtr {
				sym = append(sym, f.X)
			} else {
				symOK = false
			}
		} else if ok {
			symOK = false
		}
		v := r.id("f")
		b.List = append(b.List, define([]ast.Expr{v}, r.expr(call.Fun)))
		fun = v
	case *ast.Ident:
		site += "/" + f.Name
		if _, ok := r.info.Uses[f].(*types.Func); !ok {
			symOK = false
		}
		v := r.id("f")
		b.List = append(b.List, define([]ast.Expr{v}, r.expr(call.Fun)))
		fun = v
	default:
		symOK = false
		v := r.id("f")
		b.List = append(b.List, define([]ast.Expr{v}, r.expr(call.Fun)))
		fun = v
	}
	nc := &ast.CallExpr{Fun: fun, Ellipsis: call.Ellipsis}
	for _, a := range call.Args {
		if r.inlineArg(a) {
			nc.Args = append(nc.Args, r.expr(a))
			continue
		}
		v := r.id("a")
		// convert to the parameter's type only where inference needs it: plain
		// assignment keeps the argument's own type, which is assignable
		b.List = append(b.List, define([]ast.Expr{v}, r.expr(a)))
		nc.Args = append(nc.Args, v)
		sym = append(sym, v)
	}
	if call.Ellipsis != 0 {
		symOK = false
	}
	var symE ast.Expr = ast.NewIdent("nil")
	if symOK {
		symE = &ast.CompositeLit{Type: &ast.ArrayType{Elt: ast.NewIdent("any")}, Elts: sym}
	}
	b.List = append(b.List, &ast.ExprStmt{X: r.vcall("Go", &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(site)}, symE,
		&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})})
	return b
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || ok && id.Name == "_"
}

func (r *rw) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := core(r.typ(s.X))
	blank := ast.NewIdent("_")
	switch t.(type) {
	case *types.Chan:
		ch := r.id("c")
		tmp, ok := r.id("t"), r.id("o")
		body := []ast.Stmt{
			define([]ast.Expr{tmp, ok}, r.vcall("Recv2", ch)),
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		var init ast.Stmt
		if isBlank(s.Key) {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{blank}, Tok: token.ASSIGN, Rhs: []ast.Expr{tmp}})
			init = define([]ast.Expr{ch}, r.expr(s.X))
		} else {
			if s.Tok == token.DEFINE {
				init = define([]ast.Expr{ch, s.Key}, r.vcall(r.dir("ChanIter", s.X), r.expr(s.X)))
			} else {
				init = define([]ast.Expr{ch}, r.expr(s.X))
			}
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(s.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{tmp}})
		}
		r.block(s.Body)
		return &ast.ForStmt{For: s.For, Init: init, Body: &ast.BlockStmt{List: append(body, s.Body.List...), Lbrace: s.Body.Lbrace, Rbrace: s.Body.Rbrace}}
	case *types.Map:
		it := r.id("m")
		k, v := ast.Expr(blank), ast.Expr(blank)
		var body []ast.Stmt
		set := func(dst ast.Expr, fld string) {
			if !isBlank(dst) {
				body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(dst)}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.SelectorExpr{X: it, Sel: ast.NewIdent(fld)}}})
			}
		}
		if s.Tok == token.DEFINE {
			if !isBlank(s.Key) {
				k = s.Key
			}
			if !isBlank(s.Value) {
				v = s.Value
			}
		}
		set(s.Key, "K")
		set(s.Value, "V")
		init := define([]ast.Expr{it, k, v}, r.vcall("NewMapIter", r.expr(s.X)))
		r.block(s.Body)
		return &ast.ForStmt{For: s.For, Init: init, Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}},
			Body: &ast.BlockStmt{List: append(body, s.Body.List...), Lbrace: s.Body.Lbrace, Rbrace: s.Body.Rbrace}}
	}
	s.X = r.expr(s.X)
	r.block(s.Body)
	return s
}

// dir appends R or S to name for receive-only and send-only channels.
func (r *rw) dir(name string, ch ast.Expr) string {
	switch r.isChan(ch).Dir() {
	case types.RecvOnly:
		return name + "R"
	case types.SendOnly:
		return name + "S"
	}
	return name
}

func (r *rw) selectStmt(s *ast.SelectStmt) ast.Stmt {
	hasDef := false
	var lhs, rhs, args []ast.Expr
	sw := &ast.SwitchStmt{Switch: s.Select, Body: &ast.BlockStmt{Lbrace: s.Body.Lbrace, Rbrace: s.Body.Rbrace}}
	n := 0
	for _, cs := range s.Body.List {
		c := cs.(*ast.CommClause)
		cc := &ast.CaseClause{Case: c.Case, Colon: c.Colon}
		if c.Comm == nil {
			hasDef = true
			cc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "-1"}}
			cc.Body = r.stmts(c.Body)
			sw.Body.List = append(sw.Body.List, cc)
			continue
		}
		v := r.id("s")
		lhs = append(lhs, v)
		args = append(args, v)
		cc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}
		n++
		var pre []ast.Stmt
		recv := func(e ast.Expr) {
			u := unparen(e).(*ast.UnaryExpr)
			rhs = append(rhs, r.vcall("CaseRecv", r.expr(u.X)))
		}
		fld := func(f string) ast.Expr { return &ast.SelectorExpr{X: v, Sel: ast.NewIdent(f)} }
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, &ast.CallExpr{Fun: r.vcall("CaseSend", r.expr(m.Chan)), Args: []ast.Expr{r.expr(m.Value)}})
		case *ast.ExprStmt:
			recv(m.X)
		case *ast.AssignStmt:
			recv(m.Rhs[0])
			a := &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{fld("V")}}
			if len(m.Lhs) == 2 {
				a.Rhs = append(a.Rhs, fld("Ok"))
			}
			if m.Tok != token.DEFINE {
				for i := range a.Lhs {
					a.Lhs[i] = r.lhs(a.Lhs[i])
				}
			}
			pre = append(pre, a)
		}
		cc.Body = append(pre, r.stmts(c.Body)...)
		sw.Body.List = append(sw.Body.List, cc)
	}
	if len(lhs) > 0 {
		sw.Init = define(lhs, rhs...)
	}
	sw.Tag = r.vcall("Select", append([]ast.Expr{ast.NewIdent(strconv.FormatBool(hasDef))}, args...)...)
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable select"`}}}}}})
	return sw
}

// ---- expressions -------------------------------------------------------

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

// pkgSel redirects pkg.Name to the shim of pkg.
func (r *rw) pkgSel(e *ast.SelectorExpr) (ast.Expr, bool) {
	id, ok := e.X.(*ast.Ident)
	if !ok {
		return nil, false
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return nil, false
	}
	path := pn.Imported().Path()
	if names := r.shims[path]; names != nil && names[e.Sel.Name] {
		shim := r.c.Shims[path]
		al := "vc" + strings.ReplaceAll(shim[strings.LastIndexByte(shim, '/')+1:], "-", "_")
		r.f.need[al] = shim
		return &ast.SelectorExpr{X: &ast.Ident{Name: al, NamePos: id.NamePos}, Sel: e.Sel}, true
	}
	return e, true
}

func (r *rw) call(c *ast.CallExpr) *ast.CallExpr {
	return r.expr(c).(*ast.CallExpr)
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.BadExpr, *ast.BasicLit:
		return e
	case *ast.Ident:
		return r.read(e)
	case *ast.Ellipsis:
		e.Elt = r.expr(e.Elt)
		return e
	case *ast.FuncLit:
		r.funcType(e.Type)
		r.block(e.Body)
		return e
	case *ast.CompositeLit:
		t := core(r.typ(e))
		if e.Type != nil {
			e.Type = r.expr(e.Type)
		}
		if p, ok := t.(*types.Pointer); ok {
			t = core(p.Elem())
		}
		_, isStruct := t.(*types.Struct)
		for i, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
				continue
			}
			e.Elts[i] = r.expr(x)
		}
		return e
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.SelectorExpr:
		if x, ok := r.pkgSel(e); ok {
			return r.read(x)
		}
		return r.read(e)
	case *ast.IndexExpr:
		if r.isMap(e.X) {
			return r.mapIndex(e, false)
		}
		return r.read(e)
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
		r.exprs(e.Indices)
		return e
	case *ast.SliceExpr:
		e.X = r.addr(e.X)
		if e.Low != nil {
			e.Low = r.expr(e.Low)
		}
		if e.High != nil {
			e.High = r.expr(e.High)
		}
		if e.Max != nil {
			e.Max = r.expr(e.Max)
		}
		return e
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
		if e.Type != nil {
			e.Type = r.expr(e.Type)
		}
		return e
	case *ast.CallExpr:
		return r.callExpr(e)
	case *ast.StarExpr:
		return r.read(e)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.ARROW:
			c := r.vcall("Recv", r.expr(e.X))
			setPos(c, e.Pos())
			return c
		case token.AND:
			e.X = r.addr(e.X)
			return e
		}
		e.X = r.expr(e.X)
		return e
	case *ast.BinaryExpr:
		e.X = r.expr(e.X)
		e.Y = r.expr(e.Y)
		return e
	case *ast.KeyValueExpr:
		e.Key = r.expr(e.Key)
		e.Value = r.expr(e.Value)
		return e
	case *ast.ArrayType:
		if e.Len != nil {
			e.Len = r.expr(e.Len)
		}
		e.Elt = r.expr(e.Elt)
		return e
	case *ast.StructType:
		r.fields(e.Fields)
		return e
	case *ast.FuncType:
		r.funcType(e)
		return e
	case *ast.InterfaceType:
		r.fields(e.Methods)
		return e
	case *ast.MapType:
		e.Key = r.expr(e.Key)
		e.Value = r.expr(e.Value)
		return e
	case *ast.ChanType:
		e.Value = r.expr(e.Value)
		return e
	}
	fatal("unknown expression %T", e)
	return nil
}

func (r *rw) callExpr(e *ast.CallExpr) ast.Expr {
	pos := e.Pos()
	switch r.builtin(e.Fun) {
	case "close":
		c := r.vcall(r.dir("Close", e.Args[0]), r.expr(e.Args[0]))
		setPos(c, pos)
		return c
	case "len":
		if r.isChan(e.Args[0]) != nil {
			c := r.vcall(r.dir("Len", e.Args[0]), r.expr(e.Args[0]))
			setPos(c, pos)
			return c
		}
		if r.c.Race && r.isMap(e.Args[0]) {
			e.Args[0] = r.vcall("RdMap", r.expr(e.Args[0]))
			return e
		}
		if _, ok := core(r.typ(e.Args[0])).(*types.Array); ok {
			return e // constant
		}
		e.Args[0] = r.expr(e.Args[0])
		return e
	case "make":
		if ch := r.isChan(e.Args[0]); ch != nil {
			e.Args[0] = r.expr(e.Args[0])
			if len(e.Args) == 2 {
				e.Args[1] = r.vcall("Cap", &ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{r.expr(e.Args[1])}})
			}
			c := r.vcall("Made", e)
			setPos(c, pos)
			return c
		}
		r.exprs(e.Args)
		return e
	case "new":
		r.exprs(e.Args)
		return e
	case "delete":
		m := r.expr(e.Args[0])
		if r.c.Race {
			m = r.vcall("WrMap", m)
		}
		e.Args[0] = m
		e.Args[1] = r.expr(e.Args[1])
		return e
	case "":
		// method calls on addressable values take their address
		if s, ok := unparen(e.Fun).(*ast.SelectorExpr); ok {
			if sel, ok := r.info.Selections[s]; ok && sel.Kind() == types.MethodVal {
				s.X = r.recv(s.X)
				r.exprs(e.Args)
				return e
			}
		}
		e.Fun = r.expr(e.Fun)
		r.exprs(e.Args)
		return e
	}
	r.exprs(e.Args)
	return e
}

// recv rewrites the operand of a method selection.
func (r *rw) recv(e ast.Expr) ast.Expr {
	switch core(r.typ(e)).(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Slice:
		return r.expr(e)
	}
	return r.addr(e)
}

// ---- memory accesses (race mode) ---------------------------------------

func (r *rw) findCaptured(f *ast.File) {
	var lits []*ast.FuncLit
	ast.Inspect(f, func(n ast.Node) bool {
		if l, ok := n.(*ast.FuncLit); ok {
			lits = append(lits, l)
		}
		return true
	})
	for _, l := range lits {
		ast.Inspect(l.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := r.info.Uses[id].(*types.Var); ok && !v.IsField() && v.Parent() != r.pkg.Scope() && v.Parent() != types.Universe {
					if v.Pos() < l.Pos() || v.Pos() > l.End() {
						r.capt[v] = true
					}
				}
			}
			return true
		})
	}
}

// tracked tells whether e denotes shared memory whose accesses are recorded.
func (r *rw) tracked(e ast.Expr) bool {
	if !r.c.Race {
		return false
	}
	switch core(r.typ(e)).(type) {
	case *types.Struct, *types.Array, nil, *types.Tuple, *types.Signature:
		return false
	}
	switch x := e.(type) {
	case *ast.Ident:
		v, ok := r.info.Uses[x].(*types.Var)
		if !ok || v.IsField() {
			return false
		}
		if v.Parent() == r.pkg.Scope() {
			return true
		}
		return r.capt[v]
	case *ast.SelectorExpr:
		s, ok := r.info.Selections[x]
		if !ok || s.Kind() != types.FieldVal {
			return false
		}
		tv := r.info.Types[x]
		return tv.Addressable()
	case *ast.StarExpr:
		tv := r.info.Types[x]
		return tv.IsValue()
	case *ast.IndexExpr:
		tv := r.info.Types[x]
		return tv.IsValue() && tv.Addressable()
	}
	return false
}

// inner rewrites the operands of a variable without recording the access.
func (r *rw) inner(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.SelectorExpr:
		if x, ok := r.pkgSel(e); ok {
			return x
		}
		// x.f: if x is a pointer it is read, if a struct its address is used
		e.X = r.recv(e.X)
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		if tv, ok := r.info.Types[e.X]; ok && (tv.IsType() || !tv.IsValue()) {
			e.X = r.expr(e.X)
			e.Index = r.expr(e.Index)
			return e
		}
		if _, ok := core(r.typ(e.X)).(*types.Array); ok {
			e.X = r.addr(e.X)
		} else {
			e.X = r.expr(e.X)
		}
		e.Index = r.expr(e.Index)
	}
	return e
}

func (r *rw) read(e ast.Expr) ast.Expr {
	t := r.tracked(e)
	if s, ok := e.(*ast.SelectorExpr); ok {
		if id, ok := s.X.(*ast.Ident); ok && strings.HasPrefix(id.Name, "vc") {
			return e // already redirected
		}
	}
	x := r.inner(e)
	if !t {
		return x
	}
	return r.deref("Rd", x)
}

func (r *rw) deref(fn string, x ast.Expr) ast.Expr {
	var p ast.Expr
	if s, ok := x.(*ast.StarExpr); ok {
		p = s.X
	} else {
		p = &ast.UnaryExpr{Op: token.AND, X: x}
	}
	return &ast.ParenExpr{X: &ast.StarExpr{X: r.vcall(fn, p)}}
}

func (r *rw) mapIndex(e *ast.IndexExpr, write bool) ast.Expr {
	e.X = r.expr(e.X)
	e.Index = r.expr(e.Index)
	if r.c.Race {
		fn := "RdMap"
		if write {
			fn = "WrMap"
		}
		e.X = r.vcall(fn, e.X)
	}
	return e
}

// lhs rewrites an assignment target.
func (r *rw) lhs(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.lhs(x.X)
		return x
	case *ast.Ident:
		if x.Name == "_" || !r.tracked(x) {
			return x
		}
		return r.deref("Wr", x)
	case *ast.IndexExpr:
		if r.isMap(x.X) {
			return r.mapIndex(x, true)
		}
	}
	t := r.tracked(e)
	x := r.inner(e)
	if !t {
		return x
	}
	return r.deref("Wr", x)
}

// addr rewrites an operand whose address is taken.
func (r *rw) addr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.addr(x.X)
		return x
	case *ast.CompositeLit:
		return r.expr(x)
	case *ast.Ident:
		return x
	case *ast.SelectorExpr, *ast.StarExpr:
		return r.inner(e)
	case *ast.IndexExpr:
		if r.isMap(x.X) {
			return r.expr(x)
		}
		return r.inner(e)
	}
	return r.expr(e)
}
