package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// made: a field that holds a pointer, a map, a channel, a function or an interface and is used without a look whether
// it is set, is set somewhere.
func (c *Ctx) made() {
	set := map[*types.Var]bool{}
	whole := map[*types.Named]bool{} // Types whose objects are filled by somebody else.
	type use struct {
		fn  *ssa.Function
		pos token.Pos
	}
	uses := map[*types.Var]use{}
	owner := map[*types.Var]string{}
	for _, pk := range c.p.pkgs {
		for _, fn := range c.p.pkgFuncs(pk.Name) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.FieldAddr:
						st, ok := deref(x.X.Type()).Underlying().(*types.Struct)
						if !ok {
							continue
						}
						f := st.Field(x.Field)
						owner[f] = types.TypeString(deref(x.X.Type()), func(p *types.Package) string { return p.Name() }) + "." + f.Name()
						for _, r := range *x.Referrers() {
							ld, ok := r.(*ssa.UnOp)
							if !ok || ld.Op != token.MUL {
								set[f] = true // It is stored to, or its address goes elsewhere.
								continue
							}
							if pos, ok := usedUnlooked(ld); ok {
								uses[f] = use{fn, pos}
							}
						}
					case *ssa.MakeInterface:
						if n, ok := types.Unalias(deref(x.X.Type())).(*types.Named); ok && decodedInto(x) {
							whole[n] = true
						}
					}
				}
			}
		}
	}
	for f, u := range uses {
		if f.Pkg() == nil || !c.ours(f.Pkg()) {
			continue
		}
		if set[f] || c.ownedBy(f, whole) {
			c.ok("made")
			continue
		}
		c.bad("made", fnName(c, u.fn), u.pos, nil, "%s is used, but nothing ever sets it", owner[f])
	}
	c.atLeast("made", 20, "fields that have to be set")
}

func (c *Ctx) ours(p *types.Package) bool {
	for _, pk := range c.p.pkgs {
		if pk.Types == p {
			return true
		}
	}
	return false
}

func (c *Ctx) ownedBy(f *types.Var, whole map[*types.Named]bool) bool {
	for n := range whole {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i) == f {
					return true
				}
			}
		}
	}
	return false
}

// decodedInto: a decoder gets the pointer.
func decodedInto(x *ssa.MakeInterface) bool {
	if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	for _, r := range *x.Referrers() {
		if call, ok := r.(ssa.CallInstruction); ok {
			n := call.Common().String()
			if strings.Contains(n, "Unmarshal") || strings.Contains(n, "Decode") || strings.Contains(n, "Scan") {
				return true
			}
		}
	}
	return false
}

// usedUnlooked: the value is used in a way that needs it to be there, and nothing looks whether it is.
func usedUnlooked(v ssa.Value) (token.Pos, bool) {
	var at token.Pos
	used := false
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.BinOp:
			return 0, false // A comparison.
		case *ssa.FieldAddr:
			used, at = true, x.Pos()
		case *ssa.UnOp:
			if x.Op == token.MUL || x.Op == token.ARROW {
				used, at = true, x.Pos()
			}
		case *ssa.MapUpdate:
			if x.Map == v {
				used, at = true, x.Pos()
			}
		case *ssa.Send:
			if x.Chan == v {
				used, at = true, x.Pos()
			}
		case *ssa.Select:
			used, at = true, x.Pos()
		case ssa.CallInstruction:
			cc := x.Common()
			if cc.Value == v && !isBuiltinCall(cc) {
				used, at = true, x.Pos()
			}
			if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(cc.Args) > 0 && cc.Args[0] == v {
				if _, ok := v.Type().Underlying().(*types.Pointer); ok {
					used, at = true, x.Pos()
				}
			}
		}
	}
	return at, used
}

func isBuiltinCall(cc *ssa.CallCommon) bool {
	_, ok := cc.Value.(*ssa.Builtin)
	return ok
}
