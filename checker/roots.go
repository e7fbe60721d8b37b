package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Entry points of the packages that drive the detector: exported functions and methods, main, and functions that
// are handed to something that calls them later (HTTP handlers, state machine actions, callbacks).

type rtRoot struct {
	fn  *ssa.Function
	pkg string
}

// boundary tells which functions of other packages of the module are treated as calls rather than inlined.
func boundary(from *ssa.Package) func(fn *ssa.Function, name string) bool {
	return func(fn *ssa.Function, name string) bool {
		if fn.Pkg == nil || fn.Pkg == from {
			return false
		}
		obj, ok := fn.Object().(*types.Func)
		if !ok || !obj.Exported() {
			return false
		}
		r := obj.Type().(*types.Signature).Recv()
		if r == nil {
			return strings.HasPrefix(obj.Name(), "New")
		}
		n, ok := deref(r.Type()).(*types.Named)
		if !ok {
			return false
		}
		switch n.Obj().Name() {
		case "Linkage", "Registry", "API", "Loader", "Distributor":
			return true
		}
		return false
	}
}

func (c *Ctx) runtimePaths(r rtRoot) ([]*Path, *Engine) {
	return c.paths(r.fn, opts{key: "runtime", noInline: boundary(r.fn.Pkg)})
}

func isEntry(fn *ssa.Function) bool {
	if fn.Parent() != nil || fn.Synthetic != "" {
		return false
	}
	obj := fn.Object()
	if obj == nil {
		return fn.Name() == "init"
	}
	return obj.Exported() || fn.Name() == "main"
}

// unwrap gives the method behind a synthetic wrapper (a method value, a promoted method).
func (p *Program) unwrap(f *ssa.Function) *ssa.Function {
	if f != nil && f.Synthetic != "" {
		if o, ok := f.Object().(*types.Func); ok && o != nil {
			if g := p.prog.FuncValue(o); g != nil {
				return g
			}
		}
	}
	return f
}

// addressTaken lists the functions of a package used as values rather than called.
func (p *Program) addressTaken(pkg *ssa.Package) []*ssa.Function {
	set := map[*ssa.Function]bool{}
	for f := range ssautil.AllFunctions(p.prog) {
		if f.Pkg == nil || !p.byPkg[f.Pkg.Pkg] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					var g *ssa.Function
					switch x := (*op).(type) {
					case *ssa.Function:
						g = x
					}
					if g == nil || (*op == callee && !isMakeClosure(in)) {
						continue
					}
					g = p.unwrap(g)
					if mc, ok := in.(*ssa.MakeClosure); ok && calledHere(mc) {
						continue
					}
					if g.Pkg == pkg && g.Blocks != nil {
						set[g] = true
					}
				}
			}
		}
	}
	var r []*ssa.Function
	for f := range set {
		r = append(r, f)
	}
	// Function literals come after the functions that they stand in, which may well call them.
	depth := func(f *ssa.Function) int {
		n := 0
		for f = f.Parent(); f != nil; f = f.Parent() {
			n++
		}
		return n
	}
	sort.Slice(r, func(i, j int) bool {
		if a, b := depth(r[i]), depth(r[j]); a != b {
			return a < b
		}
		return p.funcName(r[i]) < p.funcName(r[j])
	})
	return r
}

// calledHere: the function literal is only called by the function it stands in.
func calledHere(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		call, ok := r.(*ssa.Call)
		if !ok || call.Call.Value != ssa.Value(mc) {
			return false
		}
		for _, a := range call.Call.Args {
			if a == ssa.Value(mc) {
				return false
			}
		}
	}
	return true
}

func isMakeClosure(in ssa.Instruction) bool {
	_, ok := in.(*ssa.MakeClosure)
	return ok
}

// runtimeRoots of the given packages (default main, loading, api).
func (c *Ctx) runtimeRoots(pkgs ...string) []rtRoot {
	if len(pkgs) == 0 {
		pkgs = []string{"main", "loading", "api"}
	}
	var r []rtRoot
	for _, pk := range pkgs {
		if rs, ok := c.rt[pk]; ok {
			r = append(r, rs...)
			continue
		}
		var rs []rtRoot
		sp := c.p.ssa[pk]
		if sp == nil {
			c.bad("anchor", "package "+pk, 0, nil, "package %s does not exist", pk)
			continue
		}
		seen := map[*ssa.Function]bool{}
		add := func(fn *ssa.Function) {
			if seen[fn] {
				return
			}
			rt := rtRoot{fn, pk}
			rs = append(rs, rt)
			_, e := c.runtimePaths(rt)
			for f := range e.seen {
				seen[f] = true
			}
		}
		fns := c.p.pkgFuncs(pk)
		for _, fn := range fns {
			if isEntry(fn) && fn.Name() != "init" {
				add(fn)
			}
		}
		for _, fn := range c.p.addressTaken(sp) {
			add(fn)
		}
		if c.rt == nil {
			c.rt = map[string][]rtRoot{}
		}
		c.rt[pk] = rs
		r = append(r, rs...)
	}
	return r
}
