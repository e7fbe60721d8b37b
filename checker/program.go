package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	dir   string
	pkgs  []*packages.Package
	prog  *ssa.Program
	fset  *token.FileSet
	ssa   map[string]*ssa.Package // by package name
	byPkg map[*types.Package]bool
	mod   string
	nFunc int
	funcs map[string][]*ssa.Function
	used  map[*ssa.Function]bool
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Dir: dir,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GO111MODULE=on", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if ov := normalised(pkgs); len(ov) > 0 {
		cfg.Overlay = ov
		if pkgs, err = packages.Load(cfg, "./..."); err != nil {
			return nil, err
		}
	}
	var keep []*packages.Package
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s does not type-check: %v", p.PkgPath, p.Errors[0])
		}
		if strings.Contains(p.PkgPath, "/mocks/") {
			continue
		}
		keep = append(keep, p)
	}
	prog, spk := ssautil.Packages(keep, ssa.InstantiateGenerics)
	p := &Program{dir: dir, pkgs: keep, prog: prog, ssa: map[string]*ssa.Package{}, byPkg: map[*types.Package]bool{}}
	if len(keep) > 0 {
		p.fset = keep[0].Fset
		if keep[0].Module != nil {
			p.mod = keep[0].Module.Path
		}
	}
	for i, s := range spk {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", keep[i].PkgPath)
		}
		s.Build()
		p.ssa[s.Pkg.Name()] = s
		p.byPkg[s.Pkg] = true
	}
	p.findRoles()
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && p.byPkg[fn.Pkg.Pkg] && fn.Synthetic == "" {
			p.nFunc++
		}
	}
	return p, nil
}

// normalised rewrites loops over integers to three-clause loops on their own lines, so that both have one form; line
// numbers stay.
func normalised(pkgs []*packages.Package) map[string][]byte {
	type edit struct {
		from, to int
		text     string
	}
	edits := map[string][]edit{}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil
		}
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			var src []byte
			ast.Inspect(f, func(n ast.Node) bool {
				r, ok := n.(*ast.RangeStmt)
				if !ok {
					return true
				}
				T := p.TypesInfo.TypeOf(r.X)
				if T == nil || !isIntType(T) {
					return true
				}
				if src == nil {
					b, err := os.ReadFile(name)
					if err != nil {
						return true
					}
					src = b
				}
				off := func(x token.Pos) int { return p.Fset.Position(x).Offset }
				ts := types.TypeString(types.Default(T), func(q *types.Package) string {
					if q == p.Types {
						return ""
					}
					return q.Name()
				})
				k, body := "", ""
				if id, isID := r.Key.(*ast.Ident); isID && id.Name != "_" {
					k = id.Name
					if T2 := p.TypesInfo.TypeOf(id); T2 != nil {
						ts = types.TypeString(T2, func(q *types.Package) string {
							if q == p.Types {
								return ""
							}
							return q.Name()
						})
					}
					op := " := "
					if r.Tok == token.ASSIGN {
						op = " = "
					}
					body = " " + k + op + "wfdI;"
				} else if r.Key != nil && k == "" {
					if id, isID := r.Key.(*ast.Ident); !isID || id.Name != "_" {
						return true
					}
				}
				x := string(src[off(r.X.Pos()):off(r.X.End())])
				edits[name] = append(edits[name], edit{off(r.For), off(r.Body.Lbrace) + 1,
					"for wfdI, wfdN := " + ts + "(0), " + ts + "(" + x + "); wfdI < wfdN; wfdI++ {" + body})
				return true
			})
		}
	}
	r := map[string][]byte{}
	for name, es := range edits {
		b, err := os.ReadFile(name)
		if err != nil {
			continue
		}
		sort.Slice(es, func(i, j int) bool { return es[i].from > es[j].from })
		for _, x := range es {
			b = append(b[:x.from:x.from], append([]byte(x.text), b[x.to:]...)...)
		}
		r[name] = b
	}
	return r
}

func (p *Program) qual(pk *types.Package) string { return pk.Name() }

func (p *Program) pkgName(pk *types.Package) string {
	if pk == nil {
		return ""
	}
	return pk.Name()
}

func (p *Program) typesFuncName(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := types.TypeString(r.Type(), p.qual)
		return "(" + t + ")." + f.Name()
	}
	if f.Pkg() == nil {
		return f.Name()
	}
	return f.Pkg().Name() + "." + f.Name()
}

func (p *Program) funcName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if obj, ok := fn.Object().(*types.Func); ok && obj != nil {
		return p.typesFuncName(obj)
	}
	if fn.Parent() != nil {
		return p.funcName(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	return fn.String()
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// method finds a declared method (*T).name or function name of a module package.
// Unexported types are known by what makes them.
var roles = map[string]string{}

var makers = map[string]string{
	"loading.peerLoader": "newPeerLoader", "loading.queue": "newQueue", "chains.storage": "newStorage", "peers.storage": "newStorage",
}

func (p *Program) findRoles() {
	for role, maker := range makers {
		pkg, _, _ := strings.Cut(role, ".")
		s := p.ssa[pkg]
		if s == nil || s.Func(maker) == nil || s.Func(maker).Signature.Results().Len() == 0 {
			continue
		}
		if n, ok := types.Unalias(deref(s.Func(maker).Signature.Results().At(0).Type())).(*types.Named); ok {
			roles[role] = n.Obj().Name()
		}
	}
}

func roleName(pkg, name string) string {
	if r, ok := roles[pkg+"."+name]; ok {
		return r
	}
	return name
}

func (p *Program) fn(pkg, recv, name string) *ssa.Function {
	s := p.ssa[pkg]
	if s == nil {
		return nil
	}
	if recv == "" {
		return s.Func(name)
	}
	o := s.Pkg.Scope().Lookup(roleName(pkg, recv))
	if o == nil {
		return nil
	}
	for _, T := range []types.Type{types.NewPointer(o.Type()), o.Type()} {
		ms := types.NewMethodSet(T)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				if f := p.prog.FuncValue(ms.At(i).Obj().(*types.Func)); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

// exportedMethods lists the exported methods of a named type.
func (p *Program) methods(pkg, recv string, exportedOnly bool) []*ssa.Function {
	s := p.ssa[pkg]
	if s == nil {
		return nil
	}
	o := s.Pkg.Scope().Lookup(recv)
	if o == nil {
		return nil
	}
	var r []*ssa.Function
	ms := types.NewMethodSet(types.NewPointer(o.Type()))
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		if exportedOnly && !f.Exported() {
			continue
		}
		if sf := p.prog.FuncValue(f); sf != nil && sf.Blocks != nil {
			r = append(r, sf)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

// pkgFuncs lists all functions of a package, closures included.
func (p *Program) pkgFuncs(pkg string) []*ssa.Function {
	s := p.ssa[pkg]
	if s == nil {
		return nil
	}
	if r, ok := p.funcs[pkg]; ok {
		return r
	}
	var r []*ssa.Function
	for fn := range ssautil.AllFunctions(p.prog) {
		if fn.Pkg == s && fn.Blocks != nil && fn.Synthetic == "" {
			r = append(r, fn)
		}
	}
	sort.Slice(r, func(i, j int) bool { return p.funcName(r[i]) < p.funcName(r[j]) })
	if p.funcs == nil {
		p.funcs = map[string][]*ssa.Function{}
	}
	p.funcs[pkg] = r
	return r
}

// usedInProgram reports whether non-test code of the module refers to fn.
func (p *Program) usedInProgram(fn *ssa.Function) bool {
	if p.used == nil {
		p.used = map[*ssa.Function]bool{}
		for f := range ssautil.AllFunctions(p.prog) {
			if f.Pkg == nil || !p.byPkg[f.Pkg.Pkg] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							p.used[g] = true
						}
					}
				}
			}
		}
	}
	if fn.Object() != nil && fn.Object().Exported() {
		return true
	}
	return p.used[fn]
}
