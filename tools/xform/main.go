// Command xform rewrites a Go module without changing what it does, one kind of rewriting at a time. It is used to look
// for false alarms of the checks: every check has to stay quiet on every rewriting.
//
//	xform -dir DIR -kind KIND [-sites N,M] [-list]
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	start, end int
	text       string
}

type site struct {
	file  string
	at    string
	lo    int
	hi    int
	edits []edit
}

type file struct {
	name  string
	src   []byte
	ast   *ast.File
	pkg   *packages.Package
	extra bytes.Buffer
}

type xf struct {
	fset  *token.FileSet
	f     *file
	info  *types.Info
	sites []site
	n     int
}

func (x *xf) off(p token.Pos) int      { return x.fset.Position(p).Offset }
func (x *xf) text(n ast.Node) string   { return string(x.f.src[x.off(n.Pos()):x.off(n.End())]) }
func (x *xf) span(a, b token.Pos) string { return string(x.f.src[x.off(a):x.off(b)]) }
func (x *xf) fresh(p string) string    { x.n++; return fmt.Sprintf("%sX%d", p, x.n) }
func (x *xf) add(n ast.Node, es ...edit) {
	lo, hi := es[0].start, es[0].end
	for _, e := range es {
		lo, hi = min(lo, e.start), max(hi, e.end)
	}
	p := x.fset.Position(n.Pos())
	x.sites = append(x.sites, site{x.f.name, fmt.Sprintf("%s:%d", p.Filename, p.Line), lo, hi, es})
}
func (x *xf) rep(n ast.Node, t string) { x.add(n, edit{x.off(n.Pos()), x.off(n.End()), t}) }

func has(n ast.Node, f func(ast.Node) bool) bool {
	r := false
	ast.Inspect(n, func(m ast.Node) bool {
		if m != nil && f(m) {
			r = true
		}
		return !r
	})
	return r
}

// control says whether statements leave the block they stand in.
func control(n ast.Node) bool {
	return has(n, func(m ast.Node) bool {
		switch m.(type) {
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt, *ast.GoStmt:
			return true
		}
		return false
	})
}

func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt, *ast.BranchStmt:
		return true
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return true
			}
		}
	}
	return false
}

func (x *xf) typ(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == x.f.pkg.Types {
			return ""
		}
		for _, i := range x.f.ast.Imports {
			pth, _ := strconv.Unquote(i.Path.Value)
			if pth == p.Path() {
				if i.Name != nil {
					return i.Name.Name
				}
				return p.Name()
			}
		}
		return "MISSING." + p.Name()
	})
}

func (x *xf) okType(t types.Type) bool { return !strings.Contains(x.typ(t), "MISSING.") }

func blocks(n ast.Node, f func([]ast.Stmt)) {
	ast.Inspect(n, func(m ast.Node) bool {
		switch b := m.(type) {
		case *ast.BlockStmt:
			f(b.List)
		case *ast.CaseClause:
			f(b.Body)
		case *ast.CommClause:
			f(b.Body)
		}
		return true
	})
}

func pure(e ast.Expr) bool {
	return !has(e, func(m ast.Node) bool {
		switch u := m.(type) {
		case *ast.CallExpr:
			if id, ok := u.Fun.(*ast.Ident); ok && (id.Name == "len" || id.Name == "cap") {
				return false
			}
			return true
		case *ast.FuncLit:
			return true
		case *ast.UnaryExpr:
			return u.Op == token.ARROW
		}
		return false
	})
}

func simple(e ast.Expr) bool {
	switch u := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(u.X)
	}
	return false
}

var kinds = map[string]func(*xf){
	"ifinvert": func(x *xf) {
		blocks(x.f.ast, func(l []ast.Stmt) {
			for i, s := range l {
				c, ok := s.(*ast.IfStmt)
				if !ok || c.Init != nil || c.Else != nil || i+1 >= len(l) || !terminates(c.Body.List) {
					continue
				}
				rest := x.span(l[i+1].Pos(), l[len(l)-1].End())
				x.add(c, edit{x.off(c.Pos()), x.off(l[len(l)-1].End()),
					"if !(" + x.text(c.Cond) + ") {\n" + rest + "\n} else " + x.text(c.Body)})
				return
			}
		})
	},
	"elseadd": func(x *xf) {
		blocks(x.f.ast, func(l []ast.Stmt) {
			for i, s := range l {
				c, ok := s.(*ast.IfStmt)
				if !ok || c.Init != nil || c.Else != nil || i+1 >= len(l) || !terminates(c.Body.List) {
					continue
				}
				rest := x.span(l[i+1].Pos(), l[len(l)-1].End())
				x.add(c, edit{x.off(c.Pos()), x.off(l[len(l)-1].End()),
					"if " + x.text(c.Cond) + x.text(c.Body) + " else {\n" + rest + "\n}"})
				return
			}
		})
	},
	"ifswap": func(x *xf) {
		ast.Inspect(x.f.ast, func(n ast.Node) bool {
			c, ok := n.(*ast.IfStmt)
			if !ok || c.Else == nil {
				return true
			}
			if e, ok := c.Else.(*ast.BlockStmt); ok {
				init := ""
				if c.Init != nil {
					init = x.text(c.Init) + "; "
				}
				x.rep(c, "if "+init+"!("+x.text(c.Cond)+") "+x.text(e)+" else "+x.text(c.Body))
			}
			return true
		})
	},
	"splitinit": func(x *xf) {
		blocks(x.f.ast, func(l []ast.Stmt) {
			for _, s := range l {
				c, ok := s.(*ast.IfStmt)
				if !ok || c.Init == nil {
					continue
				}
				e := ""
				if c.Else != nil {
					e = " else " + x.text(c.Else)
				}
				x.rep(c, "{\n"+x.text(c.Init)+"\nif "+x.text(c.Cond)+x.text(c.Body)+e+"\n}")
			}
		})
	},
	"andsplit": func(x *xf) {
		blocks(x.f.ast, func(l []ast.Stmt) {
			for _, s := range l {
				c, ok := s.(*ast.IfStmt)
				if !ok || c.Else != nil {
					continue
				}
				b, ok := c.Cond.(*ast.BinaryExpr)
				if !ok {
					continue
				}
				init := ""
				if c.Init != nil {
					init = x.text(c.Init) + "; "
				}
				if b.Op == token.LAND {
					x.rep(c, "if "+init+x.text(b.X)+"{\nif "+x.text(b.Y)+x.text(c.Body)+"\n}")
				} else if b.Op == token.LOR && terminates(c.Body.List) {
					x.rep(c, "if "+init+x.text(b.X)+x.text(c.Body)+" else if "+x.text(b.Y)+x.text(c.Body))
				}
			}
		})
	},
	"condvar": func(x *xf) {
		blocks(x.f.ast, func(l []ast.Stmt) {
			for _, s := range l {
				c, ok := s.(*ast.IfStmt)
				if !ok || c.Init != nil {
					continue
				}
				if _, ok := c.Cond.(*ast.Ident); ok {
					continue
				}
				v := x.fresh("cond")
				x.add(c, edit{x.off(c.Pos()), x.off(c.Cond.End()), v + " := " + x.text(c.Cond) + "\nif " + v})
			}
		})
	},
	"switchtrue": func(x *xf) { // if -> switch { case C: ... default: ... }
		blocks(x.f.ast, func(l []ast.Stmt) {
			for _, s := range l {
				c, ok := s.(*ast.IfStmt)
				if !ok || has(c, func(m ast.Node) bool { b, ok := m.(*ast.BranchStmt); return ok && b.Tok == token.BREAK }) {
					continue
				}
				init := ""
				if c.Init != nil {
					init = x.text(c.Init) + "; "
				}
				body := func(b *ast.BlockStmt) string { return x.span(b.Lbrace+1, b.Rbrace) }
				t := "switch " + init + "{\ncase " + x.text(c.Cond) + ":\n" + body(c.Body)
				switch e := c.Else.(type) {
				case *ast.BlockStmt:
					t += "\ndefault:\n" + body(e)
				case *ast.IfStmt:
					t += "\ndefault:\n" + x.text(e)
				}
				x.rep(c, t+"\n}")
			}
		})
	},
	"wrapper": func(x *xf) {
		for _, d := range x.f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "main" || fd.Name.Name == "init" || fd.Type.TypeParams != nil {
				continue
			}
			name := "inner" + fd.Name.Name
			if !fd.Name.IsExported() {
				name = fd.Name.Name + "Inner"
			}
			var ps, as []string
			for _, f := range fd.Type.Params.List {
				names := f.Names
				if len(names) == 0 {
					names = []*ast.Ident{{Name: "_"}}
				}
				for _, n := range names {
					v := n.Name
					if v == "_" {
						v = x.fresh("p")
					}
					ps = append(ps, v+" "+x.text(f.Type))
					if _, ok := f.Type.(*ast.Ellipsis); ok {
						v += "..."
					}
					as = append(as, v)
				}
			}
			res := ""
			ret := ""
			if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
				res = x.span(fd.Type.Results.Pos(), fd.Type.Results.End())
				ret = "return "
			}
			recv, call := "", name
			if fd.Recv != nil {
				if len(fd.Recv.List[0].Names) == 0 {
					continue
				}
				rn := fd.Recv.List[0].Names[0].Name
				if rn == "_" {
					continue
				}
				recv = "(" + x.text(fd.Recv.List[0]) + ") "
				call = rn + "." + name
			}
			orig := "func " + recv + fd.Name.Name + "(" + strings.Join(ps, ", ") + ") " + res + " {\n" + ret + call + "(" + strings.Join(as, ", ") + ")\n}\n\n" +
				"func " + recv + name + x.span(fd.Type.Params.Pos(), fd.Type.End()) + " " + x.text(fd.Body)
			start := fd.Pos()
			x.add(fd, edit{x.off(start), x.off(fd.End()), orig})
		}
	},
	"retvar": func(x *xf) {
		for _, d := range x.f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			var walk func(n ast.Node, sig *types.Signature)
			walk = func(n ast.Node, sig *types.Signature) {
				ast.Inspect(n, func(m ast.Node) bool {
					switch u := m.(type) {
					case *ast.FuncLit:
						walk(u.Body, x.info.TypeOf(u).(*types.Signature))
						return false
					case *ast.ReturnStmt:
						if len(u.Results) == 0 || sig.Results().Len() == 0 {
							return true
						}
						var vs []string
						t := "{\n"
						for i := 0; i < sig.Results().Len(); i++ {
							if !x.okType(sig.Results().At(i).Type()) {
								return true
							}
							vs = append(vs, x.fresh("r"))
						}
						if len(u.Results) != len(vs) {
							t += strings.Join(vs, ", ") + " := " + x.text(u.Results[0]) + "\n"
						} else {
							for i, v := range vs {
								t += "var " + v + " " + x.typ(sig.Results().At(i).Type()) + " = " + x.text(u.Results[i]) + "\n"
							}
						}
						x.rep(u, t+"return "+strings.Join(vs, ", ")+"\n}")
						return false
					}
					return true
				})
			}
			walk(fd.Body, x.info.Defs[fd.Name].Type().(*types.Signature))
		}
	},
	"argvar": func(x *xf) { // nested calls get variables
		blocks(x.f.ast, func(l []ast.Stmt) {
			for _, s := range l {
				var e ast.Expr
				switch u := s.(type) {
				case *ast.ExprStmt:
					e = u.X
				case *ast.AssignStmt:
					if len(u.Rhs) == 1 {
						e = u.Rhs[0]
					}
				case *ast.ReturnStmt:
					if len(u.Results) == 1 {
						e = u.Results[0]
					}
				}
				c, ok := e.(*ast.CallExpr)
				if !ok || x.info.Types[c.Fun].IsType() {
					continue
				}
				pre := ""
				var es []edit
				for _, a := range c.Args {
					if tv := x.info.Types[a]; pure(a) && !has(a, func(m ast.Node) bool { _, ok := m.(*ast.BinaryExpr); return ok }) ||
						tv.IsType() || tv.Value != nil || a.Pos() == c.Pos() {
						continue
					} else if _, ok := tv.Type.(*types.Tuple); ok {
						continue
					} else if _, ok := a.(*ast.FuncLit); ok {
						continue
					}
					v := x.fresh("arg")
					pre += v + " := " + x.text(a) + "\n"
					es = append(es, edit{x.off(a.Pos()), x.off(a.End()), v})
				}
				if pre != "" {
					x.add(s, append([]edit{{x.off(s.Pos()), x.off(s.Pos()), pre}}, es...)...)
				}
			}
		})
	},
	"rangeidx": func(x *xf) {
		ast.Inspect(x.f.ast, func(n ast.Node) bool {
			r, ok := n.(*ast.RangeStmt)
			if !ok || r.Tok != token.DEFINE || !simple(r.X) {
				return true
			}
			if _, ok := x.info.TypeOf(r.X).Underlying().(*types.Slice); !ok {
				return true
			}
			if has(r.Body, func(m ast.Node) bool {
				a, ok := m.(*ast.AssignStmt)
				if !ok {
					return false
				}
				for _, l := range a.Lhs {
					if x.text(l) == x.text(r.X) {
						return true
					}
				}
				return false
			}) {
				return true
			}
			k := ""
			if id, ok := r.Key.(*ast.Ident); ok && id.Name != "_" {
				k = id.Name
			} else {
				k = x.fresh("i")
			}
			v := ""
			if id, ok := r.Value.(*ast.Ident); ok && id.Name != "_" {
				v = "\n" + id.Name + " := " + x.text(r.X) + "[" + k + "]"
			}
			x.add(r, edit{x.off(r.Pos()), x.off(r.Body.Lbrace) + 1,
				"for " + k + " := 0; " + k + " < len(" + x.text(r.X) + "); " + k + "++ {" + v})
			return true
		})
	},
	"rangevar": func(x *xf) { // for _, v := range f(x) -> list := f(x); ...
		blocks(x.f.ast, func(l []ast.Stmt) {
			for _, s := range l {
				r, ok := s.(*ast.RangeStmt)
				if !ok {
					continue
				}
				if _, ok := x.info.TypeOf(r.X).Underlying().(*types.Basic); ok {
					continue
				}
				v := x.fresh("list")
				x.add(r, edit{x.off(r.Pos()), x.off(r.Pos()), v + " := " + x.text(r.X) + "\n"}, edit{x.off(r.X.Pos()), x.off(r.X.End()), v})
			}
		})
	},
	"rangeval": func(x *xf) { // for _, v := range xs -> for i := range xs { v := xs[i]
		ast.Inspect(x.f.ast, func(n ast.Node) bool {
			r, ok := n.(*ast.RangeStmt)
			if !ok || r.Tok != token.DEFINE || !simple(r.X) {
				return true
			}
			switch x.info.TypeOf(r.X).Underlying().(type) {
			case *types.Slice, *types.Map:
			default:
				return true
			}
			id, ok := r.Value.(*ast.Ident)
			if !ok || id.Name == "_" {
				return true
			}
			if has(r.Body, func(m ast.Node) bool {
				a, ok := m.(*ast.AssignStmt)
				return ok && strings.HasPrefix(x.text(a.Lhs[0]), x.text(r.X))
			}) {
				return true
			}
			k := ""
			if kid, ok := r.Key.(*ast.Ident); ok && kid.Name != "_" {
				k = kid.Name
			} else {
				k = x.fresh("i")
			}
			x.add(r, edit{x.off(r.Pos()), x.off(r.Body.Lbrace) + 1,
				"for " + k + " := range " + x.text(r.X) + " {\n" + id.Name + " := " + x.text(r.X) + "[" + k + "]"})
			return true
		})
	},
	"forcond": func(x *xf) {
		ast.Inspect(x.f.ast, func(n ast.Node) bool {
			f, ok := n.(*ast.ForStmt)
			if !ok || f.Cond == nil || f.Post != nil {
				return true
			}
			init := ""
			if f.Init != nil {
				init = x.text(f.Init)
			}
			x.add(f, edit{x.off(f.Pos()), x.off(f.Body.Lbrace) + 1,
				"for " + map[bool]string{true: init + ";; ", false: ""}[init != ""] + "{\nif !(" + x.text(f.Cond) + ") {\nbreak\n}\n"})
			return true
		})
	},
	"switchif": func(x *xf) {
		blocks(x.f.ast, func(l []ast.Stmt) {
			for _, s := range l {
				switch u := s.(type) {
				case *ast.SwitchStmt:
					if u.Init != nil || has(u, func(m ast.Node) bool { _, ok := m.(*ast.BranchStmt); return ok }) || u.Tag == nil {
						continue
					}
					v := x.fresh("tag")
					t := ""
					def := ""
					for _, c := range u.Body.List {
						cc := c.(*ast.CaseClause)
						body := ""
						if len(cc.Body) > 0 {
							body = x.span(cc.Body[0].Pos(), cc.Body[len(cc.Body)-1].End())
						}
						if cc.List == nil {
							def = body
							continue
						}
						var cs []string
						for _, e := range cc.List {
							cs = append(cs, v+" == "+x.text(e))
						}
						t += "if " + strings.Join(cs, " || ") + " {\n" + body + "\n} else "
					}
					x.rep(u, v+" := "+x.text(u.Tag)+"\n"+t+"{\n"+def+"\n}")
				case *ast.TypeSwitchStmt:
					a, ok := u.Assign.(*ast.AssignStmt)
					if !ok || has(u, func(m ast.Node) bool { _, ok := m.(*ast.BranchStmt); return ok }) {
						continue
					}
					name := a.Lhs[0].(*ast.Ident).Name
					t, def := "", ""
					v := x.fresh("val")
					bad := false
					for _, c := range u.Body.List {
						cc := c.(*ast.CaseClause)
						body := ""
						if len(cc.Body) > 0 {
							body = x.span(cc.Body[0].Pos(), cc.Body[len(cc.Body)-1].End())
						}
						if cc.List == nil {
							def = body
							continue
						}
						if len(cc.List) != 1 {
							bad = true
							break
						}
						use := name
						if x.info.Implicits[cc] == nil || !has(&ast.BlockStmt{List: cc.Body}, func(m ast.Node) bool {
							id, ok := m.(*ast.Ident)
							return ok && id.Name == name
						}) {
							use = "_"
						}
						okv := x.fresh("ok")
						t += "if " + use + ", " + okv + " := " + v + ".(" + x.text(cc.List[0]) + "); " + okv + " {\n" + body + "\n} else "
					}
					if !bad {
						x.rep(u, v+" := "+x.text(a.Rhs[0].(*ast.TypeAssertExpr).X)+"\n"+t+"{\n"+def+"\n}")
					}
				}
			}
		})
	},
	"closure": func(x *xf) { // statements are run by function literals
		blocks(x.f.ast, func(l []ast.Stmt) {
			for _, s := range l {
				switch u := s.(type) {
				case *ast.ExprStmt:
				case *ast.AssignStmt:
					if u.Tok == token.DEFINE {
						continue
					}
				default:
					continue
				}
				x.rep(s, "func() {\n"+x.text(s)+"\n}()")
			}
		})
	},
	"loopbody": func(x *xf) { // loop bodies become function literals
		ast.Inspect(x.f.ast, func(n ast.Node) bool {
			var b *ast.BlockStmt
			switch u := n.(type) {
			case *ast.ForStmt:
				b = u.Body
			case *ast.RangeStmt:
				b = u.Body
			}
			if b == nil || control(b) || len(b.List) == 0 {
				return true
			}
			x.add(n, edit{x.off(b.Lbrace) + 1, x.off(b.Lbrace) + 1, "\nfunc() {"}, edit{x.off(b.Rbrace), x.off(b.Rbrace), "}()\n"})
			return true
		})
	},
	"loopbool": func(x *xf) { // loop bodies become function literals that say whether to go on
		ast.Inspect(x.f.ast, func(n ast.Node) bool {
			var b *ast.BlockStmt
			switch u := n.(type) {
			case *ast.ForStmt:
				b = u.Body
			case *ast.RangeStmt:
				b = u.Body
			}
			if b == nil || len(b.List) == 0 || has(b, func(m ast.Node) bool {
				switch m.(type) {
				case *ast.ReturnStmt, *ast.LabeledStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.DeferStmt, *ast.TypeSwitchStmt:
					return true
				}
				return false
			}) || !control(b) {
				return true
			}
			es := []edit{{x.off(b.Lbrace) + 1, x.off(b.Lbrace) + 1, "\nif !func() bool {"}}
			ast.Inspect(b, func(m ast.Node) bool {
				if br, ok := m.(*ast.BranchStmt); ok {
					es = append(es, edit{x.off(br.Pos()), x.off(br.End()), "return " + strconv.FormatBool(br.Tok == token.CONTINUE)})
				}
				return true
			})
			tail := "\nreturn true\n}() {\nbreak\n}\n"
			if terminates(b.List) {
				tail = "\n}() {\nbreak\n}\n"
			}
			es = append(es, edit{x.off(b.Rbrace), x.off(b.Rbrace), tail})
			x.add(n, es...)
			return true
		})
	},
	"locked": func(x *xf) { // the rest of a function that locks becomes a method of its own
		for _, d := range x.f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Recv == nil || len(fd.Body.List) < 3 {
				continue
			}
			df, ok := fd.Body.List[1].(*ast.DeferStmt)
			if !ok || !strings.Contains(x.text(df), "nlock()") {
				continue
			}
			var as []string
			bad := false
			for _, f := range fd.Type.Params.List {
				for _, n := range f.Names {
					if n.Name == "_" {
						bad = true
					}
					as = append(as, n.Name)
				}
			}
			if bad {
				continue
			}
			ret := ""
			if fd.Type.Results != nil {
				ret = "return "
			}
			rest := x.span(fd.Body.List[2].Pos(), fd.Body.Rbrace)
			name := strings.ToLower(fd.Name.Name[:1]) + fd.Name.Name[1:] + "Locked"
			rn := fd.Recv.List[0].Names[0].Name
			sig := x.span(fd.Type.Params.Pos(), fd.Type.End())
			x.add(fd, edit{x.off(fd.Body.List[2].Pos()), x.off(fd.Body.Rbrace),
				ret + rn + "." + name + "(" + strings.Join(as, ", ") + ")\n}\n\nfunc (" + x.text(fd.Recv.List[0]) + ") " + name + sig + "{\n" + rest})
		}
	},
	"lockfunc": func(x *xf) { // the rest of a function that locks is a function literal
		for _, d := range x.f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Recv == nil || len(fd.Body.List) < 3 {
				continue
			}
			df, ok := fd.Body.List[1].(*ast.DeferStmt)
			if !ok || !strings.Contains(x.text(df), "nlock()") {
				continue
			}
			rest := x.span(fd.Body.List[2].Pos(), fd.Body.Rbrace)
			if fd.Type.Results == nil {
				x.add(fd, edit{x.off(fd.Body.List[1].Pos()), x.off(fd.Body.Rbrace), "func() {\n" + rest + "\n}()\n" + x.text(df.Call) + "\n"})
				continue
			}
			n := 0
			for _, f := range fd.Type.Results.List {
				n += max(1, len(f.Names))
			}
			var vs []string
			for range n {
				vs = append(vs, x.fresh("r"))
			}
			x.add(fd, edit{x.off(fd.Body.List[1].Pos()), x.off(fd.Body.Rbrace),
				strings.Join(vs, ", ") + " := func() " + x.span(fd.Type.Results.Pos(), fd.Type.Results.End()) + "{\n" + rest + "\n}()\n" +
					x.text(df.Call) + "\nreturn " + strings.Join(vs, ", ") + "\n"})
		}
	},
	"incdec": func(x *xf) {
		ast.Inspect(x.f.ast, func(n ast.Node) bool {
			if u, ok := n.(*ast.IncDecStmt); ok {
				x.rep(u, x.text(u.X)+" = "+x.text(u.X)+" "+u.Tok.String()[:1]+" 1")
			}
			return true
		})
	},
	"swapcmp": func(x *xf) {
		ast.Inspect(x.f.ast, func(n ast.Node) bool {
			if b, ok := n.(*ast.BinaryExpr); ok && (pure(b.X) || pure(b.Y)) {
				if op, ok := map[token.Token]string{token.EQL: "==", token.NEQ: "!=", token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<="}[b.Op]; ok {
					x.rep(b, x.text(b.Y)+" "+op+" "+x.text(b.X))
					return false
				}
			}
			return true
		})
	},
	"negcmp": func(x *xf) {
		ast.Inspect(x.f.ast, func(n ast.Node) bool {
			if b, ok := n.(*ast.BinaryExpr); ok {
				if op, ok := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: ">=", token.GTR: "<=", token.LEQ: ">", token.GEQ: "<"}[b.Op]; ok {
					if t, ok := x.info.TypeOf(b.X).Underlying().(*types.Basic); ok && t.Info()&types.IsFloat != 0 {
						return true
					}
					x.rep(b, "!("+x.text(b.X)+" "+op+" "+x.text(b.Y)+")")
					return false
				}
			}
			return true
		})
	},
	"demorgan": func(x *xf) {
		ast.Inspect(x.f.ast, func(n ast.Node) bool {
			if b, ok := n.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
				op := "||"
				if b.Op == token.LOR {
					op = "&&"
				}
				x.rep(b, "!(!("+x.text(b.X)+") "+op+" !("+x.text(b.Y)+"))")
				return false
			}
			return true
		})
	},
	"litfields": func(x *xf) { // composite literals become assignments of fields
		blocks(x.f.ast, func(l []ast.Stmt) {
			for _, s := range l {
				var e ast.Expr
				switch u := s.(type) {
				case *ast.AssignStmt:
					if len(u.Rhs) == 1 {
						e = u.Rhs[0]
					}
				case *ast.ReturnStmt:
					if len(u.Results) > 0 {
						e = u.Results[0]
						for _, r := range u.Results[1:] {
							if !pure(r) {
								e = nil
							}
						}
					}
				case *ast.ExprStmt:
					if c, ok := u.X.(*ast.CallExpr); ok && len(c.Args) == 1 && simple(c.Fun) {
						e = c.Args[0]
					}
				}
				ptr := false
				if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
					e, ptr = u.X, true
				}
				c, ok := e.(*ast.CompositeLit)
				if !ok || len(c.Elts) == 0 {
					continue
				}
				if _, ok := x.info.TypeOf(c).Underlying().(*types.Struct); !ok {
					continue
				}
				v := x.fresh("lit")
				t := v + " := " + x.text(c.Type) + "{}\n"
				if ptr {
					t = v + " := new(" + x.text(c.Type) + ")\n"
				}
				bad := false
				for _, el := range c.Elts {
					kv, ok := el.(*ast.KeyValueExpr)
					if !ok {
						bad = true
						break
					}
					t += v + "." + x.text(kv.Key) + " = " + x.text(kv.Value) + "\n"
				}
				if bad {
					continue
				}
				lo := e.Pos()
				if ptr {
					lo = lo - 1
				}
				x.add(s, edit{x.off(s.Pos()), x.off(s.Pos()), t}, edit{x.off(lo), x.off(e.End()), v})
			}
		})
	},
	"litorder": func(x *xf) {
		ast.Inspect(x.f.ast, func(n ast.Node) bool {
			c, ok := n.(*ast.CompositeLit)
			if !ok || len(c.Elts) < 2 {
				return true
			}
			if _, ok := x.info.TypeOf(c).Underlying().(*types.Struct); !ok {
				return true
			}
			var es []string
			for _, e := range c.Elts {
				kv, ok := e.(*ast.KeyValueExpr)
				if !ok {
					return true
				}
				es = append([]string{x.text(kv)}, es...)
			}
			x.rep(c, x.text(c.Type)+"{\n"+strings.Join(es, ",\n")+",\n}")
			return false
		})
	},
	"stmtswap": func(x *xf) { // neighbouring assignments of different fields or definitions of different variables change places
		blocks(x.f.ast, func(l []ast.Stmt) {
			for i := 0; i+1 < len(l); i++ {
				a, ok1 := l[i].(*ast.AssignStmt)
				b, ok2 := l[i+1].(*ast.AssignStmt)
				if !ok1 || !ok2 || len(a.Lhs) != 1 || len(b.Lhs) != 1 || len(a.Rhs) != 1 || len(b.Rhs) != 1 || !pure(a.Rhs[0]) && !pure(b.Rhs[0]) {
					continue
				}
				uses := func(s string, n ast.Node) bool {
					return has(n, func(m ast.Node) bool {
						e, ok := m.(ast.Expr)
						return ok && x.text(e) == s
					})
				}
				base := func(e ast.Expr) string {
					for {
						switch u := e.(type) {
						case *ast.SelectorExpr:
							e = u.X
						case *ast.IndexExpr:
							e = u.X
						default:
							return x.text(e)
						}
					}
				}
				la, lb := x.text(a.Lhs[0]), x.text(b.Lhs[0])
				if uses(base(a.Lhs[0]), b.Rhs[0]) || uses(base(b.Lhs[0]), a.Rhs[0]) {
					continue
				}
				if uses(la, b) || uses(lb, a) || !pure(a.Lhs[0]) || !pure(b.Lhs[0]) {
					continue
				}
				if !pure(a.Rhs[0]) && !simple(b.Lhs[0]) || !pure(b.Rhs[0]) && !simple(a.Lhs[0]) {
					continue
				}
				x.add(a, edit{x.off(a.Pos()), x.off(b.End()), x.text(b) + "\n" + x.text(a)})
				i++
			}
		})
	},
	"vardecl": func(x *xf) {
		blocks(x.f.ast, func(l []ast.Stmt) {
			for _, s := range l {
				a, ok := s.(*ast.AssignStmt)
				if !ok || a.Tok != token.DEFINE {
					continue
				}
				all := true
				for _, v := range a.Lhs {
					if id, ok := v.(*ast.Ident); !ok || id.Name != "_" && x.info.Defs[id] == nil {
						all = false
					}
				}
				if !all {
					continue
				}
				var vs, rs []string
				for _, v := range a.Lhs {
					vs = append(vs, x.text(v))
				}
				for _, v := range a.Rhs {
					rs = append(rs, x.text(v))
				}
				x.rep(a, "var "+strings.Join(vs, ", ")+" = "+strings.Join(rs, ", "))
			}
		})
	},
	"varsplit": func(x *xf) { // var v T; v = e
		blocks(x.f.ast, func(l []ast.Stmt) {
			for _, s := range l {
				a, ok := s.(*ast.AssignStmt)
				if !ok || a.Tok != token.DEFINE {
					continue
				}
				t := ""
				bad := false
				var vs, rs []string
				for _, v := range a.Lhs {
					id := v.(*ast.Ident)
					vs = append(vs, id.Name)
					if id.Name == "_" {
						continue
					}
					if o := x.info.Defs[id]; o != nil {
						if strings.TrimLeft(x.typ(o.Type()), "*[]") == "block" {
							bad = true
						}
						if !x.okType(o.Type()) {
							bad = true
							break
						}
						t += "var " + id.Name + " " + x.typ(o.Type()) + "\n"
					}
				}
				// Shadowing definitions may use the shadowed variable.
				for _, r := range a.Rhs {
					rs = append(rs, x.text(r))
					for _, v := range a.Lhs {
						n := v.(*ast.Ident).Name
						if has(r, func(m ast.Node) bool { id, ok := m.(*ast.Ident); return ok && id.Name == n }) {
							bad = true
						}
					}
				}
				if bad {
					continue
				}
				x.rep(a, t+strings.Join(vs, ", ")+" = "+strings.Join(rs, ", "))
			}
		})
	},
	"extractblock": func(x *xf) { // bodies of ifs that leave nothing become function literals
		ast.Inspect(x.f.ast, func(n ast.Node) bool {
			c, ok := n.(*ast.IfStmt)
			if !ok || control(c.Body) || len(c.Body.List) == 0 {
				return true
			}
			x.add(c, edit{x.off(c.Body.Lbrace) + 1, x.off(c.Body.Lbrace) + 1, "\nfunc() {"}, edit{x.off(c.Body.Rbrace), x.off(c.Body.Rbrace), "}()\n"})
			return true
		})
	},
	"errname": func(x *xf) { // errors are wrapped by a function
		ast.Inspect(x.f.ast, func(n ast.Node) bool {
			c, ok := n.(*ast.CallExpr)
			if ok && x.text(c.Fun) == "fmt.Errorf" {
				x.add(c, edit{x.off(c.Fun.Pos()), x.off(c.Fun.End()), "failureX"})
				return false
			}
			return true
		})
		if len(x.sites) > 0 {
			x.f.extra.WriteString("\nvar failureX_" + strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(x.f.name[strings.LastIndex(x.f.name, "/")+1:]) + " = 0\n")
		}
	},
	"deferfunc": func(x *xf) {
		ast.Inspect(x.f.ast, func(n ast.Node) bool {
			d, ok := n.(*ast.DeferStmt)
			if !ok || len(d.Call.Args) > 0 {
				return true
			}
			if _, ok := d.Call.Fun.(*ast.FuncLit); ok {
				return true
			}
			x.rep(d, "defer func() {\n"+x.text(d.Call)+"\n}()")
			return true
		})
	},
	"addrlocal": func(x *xf) { // receivers get a second name
		for _, d := range x.f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Recv == nil || len(fd.Recv.List[0].Names) == 0 || len(fd.Body.List) == 0 {
				continue
			}
			rn := fd.Recv.List[0].Names[0].Name
			if _, ok := fd.Recv.List[0].Type.(*ast.StarExpr); !ok || rn == "_" {
				continue
			}
			o := x.info.Defs[fd.Recv.List[0].Names[0]]
			v := x.fresh("self")
			es := []edit{{x.off(fd.Body.Lbrace) + 1, x.off(fd.Body.Lbrace) + 1, "\n" + v + " := " + rn}}
			ast.Inspect(fd.Body, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok && x.info.Uses[id] == o {
					es = append(es, edit{x.off(id.Pos()), x.off(id.End()), v})
				}
				return true
			})
			if len(es) > 1 {
				x.add(fd, es...)
			}
		}
	},
	"fieldlocal": func(x *xf) { // fields holding pointers or maps that are used as receivers get local names
		for _, d := range x.f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Recv == nil || len(fd.Recv.List[0].Names) == 0 {
				continue
			}
			o := x.info.Defs[fd.Recv.List[0].Names[0]]
			var es []edit
			names := map[string]string{}
			var order []string
			assigned := map[string]bool{}
			ast.Inspect(fd.Body, func(m ast.Node) bool {
				if a, ok := m.(*ast.AssignStmt); ok {
					for _, l := range a.Lhs {
						assigned[x.text(l)] = true
					}
				}
				return true
			})
			ast.Inspect(fd.Body, func(m ast.Node) bool {
				s, ok := m.(*ast.SelectorExpr)
				if !ok {
					return true
				}
				in, ok := s.X.(*ast.SelectorExpr)
				if !ok {
					return true
				}
				id, ok := in.X.(*ast.Ident)
				if !ok || x.info.Uses[id] != o {
					return true
				}
				if _, ok := x.info.TypeOf(in).Underlying().(*types.Pointer); !ok || assigned[x.text(in)] || x.text(in) == "l.pl" {
					return true
				}
				t := x.text(in)
				if names[t] == "" {
					names[t] = x.fresh("fld")
					order = append(order, t)
				}
				es = append(es, edit{x.off(in.Pos()), x.off(in.End()), names[t]})
				return true
			})
			if len(es) == 0 {
				continue
			}
			pre := "\n"
			for _, t := range order {
				pre += names[t] + " := " + t + "\n"
			}
			x.add(fd, append([]edit{{x.off(fd.Body.Lbrace) + 1, x.off(fd.Body.Lbrace) + 1, pre}}, es...)...)
		}
	},
}

func main() {
	dir := flag.String("dir", "", "module to rewrite")
	kind := flag.String("kind", "", "kind of rewriting")
	only := flag.String("sites", "", "sites to rewrite")
	list := flag.Bool("list", false, "list the sites only")
	match := flag.String("match", "", "part of the places of the sites to rewrite")
	kl := flag.Bool("kinds", false, "list the kinds")
	flag.Parse()
	if *kl {
		var ks []string
		for k := range kinds {
			ks = append(ks, k)
		}
		ks = append(ks, "rename")
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, " "))
		return
	}
	pkgs, err := packages.Load(&packages.Config{Dir: *dir, Mode: packages.LoadSyntax | packages.NeedModule}, "./...")
	if err != nil {
		panic(err)
	}
	var files []*file
	for _, p := range pkgs {
		if strings.Contains(p.PkgPath, "/mocks/") {
			continue
		}
		for i, a := range p.Syntax {
			n := p.CompiledGoFiles[i]
			b, err := os.ReadFile(n)
			if err != nil {
				panic(err)
			}
			if strings.HasSuffix(n, "_string.go") {
				continue
			}
			files = append(files, &file{name: n, src: b, ast: a, pkg: p})
		}
	}
	var all []site
	n := 0
	if *kind == "rename" {
		all = rename(*dir, pkgs, files)
	} else {
		for _, f := range files {
			x := &xf{fset: f.pkg.Fset, f: f, info: f.pkg.TypesInfo, n: n}
			kinds[*kind](x)
			n = x.n
			all = append(all, x.sites...)
		}
	}
	want := map[int]bool{}
	for _, s := range strings.Split(*only, ",") {
		if i, err := strconv.Atoi(s); err == nil {
			want[i] = true
		}
	}
	by := map[string][]edit{}
	taken := map[string][][2]int{}
	cnt := 0
	for i, s := range all {
		if len(want) > 0 && !want[i] || !strings.Contains(s.at, *match) {
			continue
		}
		if *list {
			fmt.Println(i, s.at)
			continue
		}
		clash := false
		for _, t := range taken[s.file] {
			if *kind != "rename" && s.lo < t[1] && t[0] < s.hi {
				clash = true
			}
		}
		if clash {
			continue
		}
		taken[s.file] = append(taken[s.file], [2]int{s.lo, s.hi})
		for _, e := range s.edits {
			by[s.file] = append(by[s.file], e)
		}
		cnt++
	}
	if *list {
		return
	}
	for _, f := range files {
		es := by[f.name]
		if len(es) == 0 {
			continue
		}
		sort.SliceStable(es, func(i, j int) bool { return es[i].start < es[j].start })
		var b bytes.Buffer
		at := 0
		for _, e := range es {
			if e.start < at {
				panic("overlap in " + f.name)
			}
			b.Write(f.src[at:e.start])
			b.WriteString(e.text)
			at = e.end
		}
		b.Write(f.src[at:])
		out := b.Bytes()
		if *kind == "errname" {
			// One helper for each package that uses it.
			first := f.name
			for _, g := range files {
				if g.pkg == f.pkg && len(by[g.name]) > 0 {
					first = g.name
					break
				}
			}
			if first == f.name {
				out = append(out, []byte("\n\nfunc failureX(format string, args ...any) error {\n\treturn fmt.Errorf(format, args...)\n}\n")...)
			} else if !bytes.Contains(out, []byte("fmt.")) {
				out = bytes.Replace(out, []byte("\t\"fmt\"\n"), nil, 1)
			}
		}
		if g, err := format.Source(out); err == nil {
			out = g
		} else {
			fmt.Fprintln(os.Stderr, f.name, err)
		}
		if err := os.WriteFile(f.name, out, 0o644); err != nil {
			panic(err)
		}
	}
	fmt.Println(*kind, "sites", cnt, "of", len(all))
}

// rename gives every unexported function, method, field, constant, variable and type that no test mentions a new name.
func rename(dir string, pkgs []*packages.Package, files []*file) []site {
	tests := map[string]bool{}
	var walk func(string)
	walk = func(d string) {
		es, _ := os.ReadDir(d)
		for _, e := range es {
			p := d + "/" + e.Name()
			if e.IsDir() && e.Name() != ".git" {
				walk(p)
			} else if strings.HasSuffix(e.Name(), "_test.go") || strings.HasSuffix(e.Name(), "_string.go") {
				b, _ := os.ReadFile(p)
				for _, w := range strings.FieldsFunc(string(b), func(r rune) bool {
					return !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z')
				}) {
					tests[w] = true
				}
			}
		}
	}
	walk(dir)
	objs := map[types.Object]bool{}
	for _, p := range pkgs {
		if strings.Contains(p.PkgPath, "/mocks/") {
			continue
		}
		for id, o := range p.TypesInfo.Defs {
			if o == nil || o.Exported() || tests[o.Name()] || id.Name == "_" || id.Name == "main" || id.Name == "init" {
				continue
			}
			ok := false
			switch u := o.(type) {
			case *types.Func:
				ok = true
			case *types.Var:
				ok = u.IsField() && !u.Embedded() || u.Parent() == p.Types.Scope()
			case *types.TypeName, *types.Const:
				ok = o.Parent() == p.Types.Scope()
			}
			if ok {
				objs[o] = true
			}
		}
	}
	var r []site
	for _, f := range files {
		byObj := map[types.Object][]edit{}
		note := func(id *ast.Ident, o types.Object) {
			if v, ok := o.(*types.Var); ok {
				o = v.Origin()
			}
			if objs[o] {
				p := f.pkg.Fset.Position(id.Pos())
				byObj[o] = append(byObj[o], edit{p.Offset, p.Offset + len(id.Name), "q" + strings.ToUpper(id.Name[:1]) + id.Name[1:]})
			}
		}
		for id, o := range f.pkg.TypesInfo.Defs {
			if o != nil && f.pkg.Fset.Position(id.Pos()).Filename == f.name {
				note(id, o)
			}
		}
		for id, o := range f.pkg.TypesInfo.Uses {
			if f.pkg.Fset.Position(id.Pos()).Filename == f.name {
				note(id, o)
			}
		}
		for o, es := range byObj {
			r = append(r, site{file: f.name, at: f.name + ":" + o.Name(), edits: es})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].at < r[j].at })
	return r
}
