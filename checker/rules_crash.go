package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C23: nothing received can crash the detector ----

// A demand on a parameter that the callers have to meet: at least lo, and not unbounded when hi is set.
type demand struct {
	fn    *ssa.Function
	i     int
	lo    int64
	hi    bool
	isLen bool
}

func runC23(c *Ctx) {
	nullable := c.nullable()
	var ds []demand
	if m := c.machine(); m != nil {
		c.eventArgs(m)
		c.slotAfterReport(m, nullable)
	}
	for _, rt := range c.runtimeRoots("chains", "peers", "main", "loading", "api") {
		paths, e := c.runtimePaths(rt)
		ds = append(ds, c.crashFree(rt, paths, e, nullable)...)
	}
	c.demands(ds)
	c.made()
	c.atLeast("index", 5, "index expressions")
	c.atLeast("slice", 3, "slice expressions")
	c.atLeast("size", 3, "sizes of new lists")
}

// slotAfterReport: the end of a loading empties the slot of the loading while the event that ended it is still being
// handled, so whatever comes after the event may not use the slot, unless the event failed, which no end of a loading does.
func (c *Ctx) slotAfterReport(m *fsm, nullable map[string]bool) {
	for _, r := range c.loaderRoots() {
		levels(r.paths, func(p *Path) {
			for i, ev := range p.Events {
				k, ok := fired(ev)
				if !ok || k == m.start || k == m.restart {
					continue
				}
				err := errOf(r.e, ev)
				for _, x := range p.Events[i+1:] {
					for _, b := range derefs(x) {
						if c.nullableField(b, nullable) == "" || b.Op != "load" || !isNamed(b.Typ, "loading", "peerLoader") {
							continue
						}
						fs := p.Facts
						if x.NFacts < len(fs) {
							fs = fs[:x.NFacts]
						}
						c.check(r.e.knownNonNil(fs, err), "slot", r.name, x.Pos, p, "the loading is used after an event that may have ended it")
					}
				}
				c.ok("slot")
			}
		})
	}
	// An action that reports the end of the loading does not fail afterwards.
	for _, s := range m.order() {
		for _, ev := range []int64{m.start, m.restart, m.ids, m.block, m.tick, m.timeout, m.ready} {
			_, acts, _ := m.step(s, ev)
			for _, f := range acts {
				a := m.info(f)
				for _, p := range a.paths {
					if p.Kind != "return" {
						continue
					}
					told := false
					walkPath(p, nil, nil, p, func(s site) {
						if s.ev.Kind == "call" && s.ev.Call != nil && s.ev.Call.Common().IsInvoke() && isNamed(s.ev.Call.Common().Value.Type(), "loading", "Reporter") {
							told = true
						}
					})
					if told && len(p.Results) > 0 {
						c.check(a.e.knownNil(p.Facts, p.ret(-1)), "slot", fnName(c, f), p.Pos, p, "an error is returned after the end of the loading was reported")
					}
				}
			}
		}
	}
}

// generated files are not examined: they are rewritten by the tool.
func (c *Ctx) generated(pos token.Pos) bool {
	f := c.p.fset.Position(pos).Filename
	return strings.HasSuffix(f, "_string.go")
}

func stripLen(t *Term) (*Term, bool) {
	if t.Op == "len" {
		return t.Args[0], true
	}
	return t, false
}

func (c *Ctx) crashFree(rt rtRoot, paths []*Path, e *Engine, nullable map[string]bool) []demand {
	name := fnName(c, rt.fn)
	pr := newProver(e, paths)
	pr.bound = knownSizes(pr)
	var ds []demand
	params := map[*Term]int{}
	for i, pa := range rt.fn.Params {
		params[e.paramTerm(rt.fn, i, pa)] = i
	}
	zero := e.tt.intc(0)
	le := func(facts []Fact, a, b *Term, k int64) bool { return pr.le(facts, a, b, k, 6) }
	// atLeast: t is at least n, or a parameter the callers have to give so.
	atLeast := func(s site, t *Term, n int64) bool {
		facts := s.facts()
		if le(facts, e.tt.intc(n), t, 0) {
			return true
		}
		x, isLen := stripLen(t)
		if i, ok := params[x]; ok {
			if s.ev.Kind == "bounds" && x.Typ != nil && isAnySlice(x.Typ) {
				return true // arguments of an event, see eventArgs
			}
			ds = append(ds, demand{fn: rt.fn, i: i, lo: n, isLen: isLen})
			return true
		}
		if !isLen || n != 1 {
			return false
		}
		if callName(strip(x)) == "(error).Error" || x.Op == "conv" && callName(x.Args[0]) == "(error).Error" {
			return true // errors have texts
		}
		if d := c.madeNonEmpty(rt.fn, x); d != nil {
			ds = append(ds, *d)
			return true
		}
		return c.linkOfChild(e, facts, x)
	}
	walk(paths, func(s site) {
		ev := s.ev
		facts := s.facts()
		if c.generated(ev.Pos) || !c.p.byPkg[pkgOf(ev)] {
			return
		}
		switch ev.Kind {
		case "bounds":
			if c.isSorter(ev.InFn) {
				return
			}
			i, n := ev.Args[1], ev.Res
			if k, ok := i.int64(); ok && k >= 0 {
				c.check(atLeast(s, n, k+1), "index", name, ev.Pos, s.path, "element %v of a list of %v is read, which may not be there", i, n)
				return
			}
			ok := le(facts, zero, i, 0) && le(facts, i, n, -1)
			if x, k := pr.split(nil, i, 1); !ok && x == n && k < 0 {
				ok = atLeast(s, n, -k) // counted from the end
			}
			c.check(ok, "index", name, ev.Pos, s.path, "element %v of a list of %v is read, which may not be there", i, n)
		case "slicebounds":
			lo, hi, n := ev.Args[1], ev.Args[2], ev.Res
			if lo == nil {
				lo = zero
			}
			if hi == nil {
				hi = n
			}
			ok := le(facts, zero, lo, 0) && le(facts, lo, hi, 0)
			if k, isc := hi.int64(); isc {
				ok = ok && atLeast(s, n, k)
			} else {
				ok = ok && le(facts, hi, n, 0)
			}
			c.check(ok, "slice", name, ev.Pos, s.path, "the part %v:%v of a list of %v is taken, which may not be there", lo, hi, n)
		case "make":
			for _, a := range ev.Args {
				if a == nil {
					continue
				}
				x := a
				if x.Op == "minmax" && strings.HasPrefix(x.Sym, "min") {
					// bounded by its bounded side
					okv := false
					for _, m := range x.Args {
						if _, isLen := stripLen(m); isLen || m.isConst() {
							okv = true
						}
					}
					c.check(okv && atLeast(s, a, 0), "size", name, ev.Pos, s.path, "a list of %v elements is made", a)
					continue
				}
				if i, ok := params[x]; ok && pr.high(facts, x, 4) == nil {
					ds = append(ds, demand{fn: rt.fn, i: i, lo: 0, hi: true})
					c.ok("size")
					continue
				}
				c.check(atLeast(s, a, 0) && sized(pr, facts, a), "size", name, ev.Pos, s.path, "a list of %v elements is made, which may be too many or negative", a)
			}
		case "assert":
			c.check(e.holds(facts, ev.Args[1]) || isAnySliceElem(ev.Args[0], params), "assert", name, ev.Pos, s.path, "%v may be of another type", ev.Args[0])
		case "div":
			d := ev.Args[0]
			v, ok := e.known(facts, e.eq(d, zero))
			c.check(ok && !v || le(facts, e.tt.intc(1), d, 0), "division", name, ev.Pos, s.path, "%v may be zero", d)
		case "call":
			switch f := ev.Fn[strings.LastIndexByte(ev.Fn, '.')+1:]; f {
			case "IntN", "Intn", "Int64N", "Int63n", "N", "Uint64N", "UintN":
				if strings.HasPrefix(ev.Fn, "rand.") || strings.HasPrefix(ev.Fn, "(*rand.") {
					c.check(le(facts, e.tt.intc(1), ev.Args[len(ev.Args)-1], 0), "size", name, ev.Pos, s.path, "one of %v elements is chosen, and there may be none", ev.Args[len(ev.Args)-1])
				}
			}
		case "use":
			switch ev.Fn[strings.LastIndexByte(ev.Fn, '.')+1:] {
			case "Div", "Quo", "Mod", "Rem", "DivMod", "QuoRem":
				v := ev.Vals[len(ev.Vals)-1]
				ok := v != nil && bigNonZero(e, facts, v)
				c.check(ok, "division", name, ev.Pos, s.path, "%v may be zero", v)
			}
		}
	})
	walk(paths, func(s site) {
		for _, b := range derefs(s.ev) {
			k := c.nullableField(b, nullable)
			if k == "" || c.present(rt, e, b, k) || handedOver(s, b) {
				continue
			}
			c.check(e.knownNonNil(s.facts(), b), "nil", name, s.ev.Pos, s.path, "%v (%s) is used, which may be missing", b, k)
		}
	})
	walkPaths := map[*Path]bool{}
	var deep func(ps []*Path)
	deep = func(ps []*Path) {
		for _, p := range ps {
			if walkPaths[p] {
				continue
			}
			walkPaths[p] = true
			if p.Kind == "panic" && !c.generated(p.Pos) {
				c.check(rt.fn.Name() == "main" || storedSize(p), "panic", name, p.Pos, p, "the detector panics")
			}
			for _, ev := range p.Events {
				if ev.Loop != nil {
					deep(ev.Loop.Bodies)
				}
				deep(ev.Bodies)
			}
		}
	}
	deep(paths)
	return ds
}

// knownSizes are the bounds that follow from what library functions give.
func knownSizes(pr *prover) func([]Fact, *Term) (*big.Int, *big.Int) {
	is4 := func(facts []Fact, a *Term) bool {
		for _, f := range facts {
			if f.Val && callName(f.Atom) == "(netip.Addr).Is4" && f.Atom.Args[0] == a {
				return true
			}
		}
		return callName(a) == "netip.AddrFrom4"
	}
	return func(facts []Fact, t *Term) (lo, hi *big.Int) {
		if x, ok := stripLen(t); ok {
			if x.Op == "ext" {
				x = x.Args[0]
			}
			switch callName(x) {
			case "(netip.Addr).MarshalBinary", "(netip.Addr).AsSlice":
				if is4(facts, x.Args[0]) {
					return big.NewInt(4), big.NewInt(4)
				}
			case "(proto.BlockID).Bytes":
				return big.NewInt(32), big.NewInt(64)
			case "strings.Split":
				if s, ok := x.Args[1].strVal(); ok && s != "" {
					return big.NewInt(1), nil
				}
			}
			return nil, nil
		}
		switch callName(t) {
		case "(netip.Addr).BitLen":
			return new(big.Int), big.NewInt(128)
		case "bits.Len32":
			return new(big.Int), big.NewInt(32)
		case "bits.Len64", "bits.Len":
			return new(big.Int), big.NewInt(64)
		}
		// the number of halvings of a height: heights start at one
		if t.Op == "conv" && isInt(t) && callName(t.Args[0]) == "math.Ceil" && callName(t.Args[0].Args[0]) == "math.Log2" {
			if h := t.Args[0].Args[0].Args[0]; h.Op == "conv" && isInt(h.Args[0]) {
				h = h.Args[0]
				height := h.any(func(x *Term) bool { return x.Op == "decoded" })
				if height || pr.atLeast(facts, h, 1, 4) {
					return new(big.Int), big.NewInt(64)
				}
			}
		}
		return nil, nil
	}
}

// derefs lists the pointers, interfaces and maps an event needs not to be nil.
func derefs(ev *Event) []*Term {
	switch ev.Kind {
	case "access", "store":
		a := ev.Args[0]
		for a != nil && (a.Op == "faddr" || a.Op == "iaddr") {
			a = a.Args[0]
		}
		return []*Term{a}
	case "use":
		return ev.Args
	case "mapset":
		return ev.Args[:1]
	case "call":
		if ev.Call == nil || len(ev.Args) == 0 {
			return nil
		}
		if cc := ev.Call.Common(); cc.IsInvoke() {
			return ev.Args[:1]
		} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil {
			if _, ok := f.Signature.Recv().Type().(*types.Pointer); ok {
				return []*Term{rootOf(ev.Args[0])}
			}
		}
	}
	return nil
}

// handedOver: the block was applied before, so it is there.
func handedOver(s site, t *Term) bool {
	for _, ev := range s.path.Events {
		if ev == s.ev {
			return false
		}
		if isCallSuffix(ev, ".PutBlock") {
			for _, a := range ev.Args {
				if a == t {
					return true
				}
			}
		}
	}
	return false
}

// present: values that are there for reasons checked elsewhere.
func (c *Ctx) present(rt rtRoot, e *Engine, t *Term, key string) bool {
	switch {
	case isNamed(t.Typ, "context", "Context"), isNamed(t.Typ, "errgroup", "Group"), isNamed(t.Typ, "http", "Server"):
		return true // set at start, before the goroutines that use it
	case strings.HasPrefix(key, "chains.block.") && t.Op == "field" && t.Args[0].Op == "decoded":
		return true // every stored block has a score
	case key == "peers.Peer.p" && rt.fn.Signature.Recv() != nil && isNamed(rt.fn.Signature.Recv().Type(), "peers", "Peer") && len(rt.fn.Params) > 0:
		// asked of connected peers only, which carry their connection
		own := e.paramTerm(rt.fn, 0, rt.fn.Params[0])
		return t.any(func(x *Term) bool { return x == own })
	case key == "peers.Peer.Score":
		// the peer whose blocks are being loaded was chosen by its score, and scores are never erased
		return t.Args[0].any(func(x *Term) bool {
			return x.Op == "faddr" && x.Typ != nil && x.Args[0].Op == "param" && isNamed(x.Args[0].Typ, "loading", "Loader") && isNamed(deref(x.Typ), "loading", "peerLoader")
		})
	}
	return false
}

// nullableField names the field a value was read from, if nil may be in it.
func (c *Ctx) nullableField(t *Term, nullable map[string]bool) string {
	if t.Op == "load" && t.Args[0].Op == "faddr" || t.Op == "havoc" && t.Args[0].Op == "faddr" || t.Op == "field" {
		var T types.Type
		var f string
		switch {
		case t.Op == "field":
			f, T = t.Sym, t.Args[0].Typ
		default:
			f = t.Args[0].Sym
			T = t.Args[0].Args[0].Typ
		}
		if T == nil {
			return ""
		}
		n, ok := types.Unalias(deref(T)).(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			return ""
		}
		k := n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + f
		if nullable[k] {
			return k
		}
		return ""
	}
	return ""
}

// madeNonEmpty: the list is kept in the receiver since it was made, from a list given to the constructor.
func (c *Ctx) madeNonEmpty(fn *ssa.Function, list *Term) *demand {
	if fn.Signature.Recv() == nil || list.Op != "load" && list.Op != "field" || list.Args[0].Op != "faddr" || list.Args[0].Args[0].Op != "param" {
		return nil
	}
	T := types.Unalias(deref(fn.Signature.Recv().Type()))
	name := list.Args[0].Sym
	var r *demand
	for _, mk := range c.p.pkgFuncs(fn.Pkg.Pkg.Name()) {
		if mk.Signature.Recv() != nil || mk.Signature.Results().Len() == 0 || !types.Identical(types.Unalias(deref(mk.Signature.Results().At(0).Type())), T) {
			continue
		}
		if !isEntry(mk) {
			continue
		}
		paths, e := c.runtimePaths(rtRoot{mk, fn.Pkg.Pkg.Name()})
		for _, p := range paths {
			if p.Kind != "return" || p.ret(0) == nil || p.ret(0).Op == "nil" {
				continue
			}
			v := e.fieldAt(p, p.ret(0), name)
			if v == nil {
				return nil
			}
			found := false
			pr := newProver(e, paths)
			for i, pa := range mk.Params {
				pt := e.paramTerm(mk, i, pa)
				if _, ok := pt.Typ.Underlying().(*types.Slice); !ok {
					continue
				}
				st := &State{facts: p.Facts}
				if pr.le(p.Facts, e.lenOf(pt, nil, st), e.lenOf(strip(v), nil, st), 0, 6) {
					r = &demand{fn: mk, i: i, lo: 1, isLen: true}
					found = true
				}
			}
			if !found {
				return nil
			}
		}
	}
	return r
}

// fieldAt is what a field of an object holds at the end of a path.
func (e *Engine) fieldAt(p *Path, obj *Term, name string) *Term {
	for a, v := range p.St.mem {
		if a.Op == "faddr" && a.Sym == name && a.Args[0] == obj {
			return v
		}
	}
	if v := p.St.mem[obj]; v != nil {
		return e.fieldOf(v, name, nil)
	}
	return nil
}

// linkOfChild: the list of ancestors belongs to a block that has a parent.
func (c *Ctx) linkOfChild(e *Engine, facts []Fact, list *Term) bool {
	if list.Op == "field" && isNamed(list.Args[0].Typ, "chains", "link") || list.Op == "field" && list.Args[0].Op == "havoc" {
		// two different blocks of one height
		for _, f := range facts {
			if f.Val || len(f.Atom.Args) != 2 || f.Atom.Op == "lt" {
				continue
			}
			ids := 0
			for _, a := range f.Atom.Args {
				if a.any(func(x *Term) bool { return x.Op == "field" && x.Sym == "BlockID" }) {
					ids++
				}
			}
			if ids == 2 {
				return true
			}
		}
	}
	if list.Op != "field" || list.Args[0].Op != "decoded" || list.Args[0].Args[0].Op != "ext" {
		return false
	}
	num := recordNum(list.Args[0])
	if num == nil {
		return false
	}
	for _, f := range facts {
		if f.Atom.Op != "eq" || f.Val || f.Atom.Args[0].Op != "len" {
			continue
		}
		if n, ok := f.Atom.Args[1].int64(); !ok || n != 0 {
			continue
		}
		if p := f.Atom.Args[0].Args[0]; p.Op == "field" && p.Args[0].Op == "decoded" && recordNum(p.Args[0]) == num {
			return true
		}
	}
	return false
}

// recordNum is the number a record was read by.
func recordNum(d *Term) *Term {
	g := d.Args[0]
	if g.Op == "ext" {
		g = g.Args[0]
	}
	if g.Op != "get" || len(g.Args) < 2 || g.Args[1].Op != "cat" {
		return nil
	}
	k := g.Args[1].Args[len(g.Args[1].Args)-1]
	if k.Op == "be64" {
		return k.Args[0]
	}
	return nil
}

// storedSize: the panic depends on the size of a key or a record read from the store.
func storedSize(p *Path) bool {
	for i := len(p.Facts) - 1; i >= 0 && i >= len(p.Facts)-3; i-- {
		if p.Facts[i].Atom.any(func(t *Term) bool {
			return t.Op == "len" && t.Args[0].any(func(x *Term) bool {
				return x.Op == "get" || x.Op == "iterkey" || x.Op == "iterval" || strings.Contains(callName(x), "terator")
			})
		}) {
			return true
		}
	}
	return false
}

func isAnySliceElem(t *Term, params map[*Term]int) bool {
	t = strip(t)
	if t.Op != "index" && t.Op != "load" {
		return false
	}
	return t.any(func(x *Term) bool { _, ok := params[x]; return ok && x.Typ != nil && isAnySlice(x.Typ) })
}

// sized: the size is that of something that exists, or a small number.
func sized(pr *prover, facts []Fact, t *Term) bool {
	if hi := pr.high(facts, t, 4); hi != nil && hi.Cmp(big.NewInt(1<<20)) <= 0 {
		return true
	}
	switch t.Op {
	case "len", "cap":
		return true
	case "bin":
		for _, a := range t.Args {
			if !a.isConst() && !sized(pr, facts, a) {
				return false
			}
		}
		return t.Sym != "<<"
	case "conv":
		return sized(pr, facts, t.Args[0])
	}
	return false
}

// isSorter: the function is what a sort is given, or only serves such functions. The sort calls them with elements that
// are there.
func (c *Ctx) isSorter(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if c.sorters == nil {
		c.sorters = map[*ssa.Function]bool{}
	}
	if v, ok := c.sorters[fn]; ok {
		return v
	}
	c.sorters[fn] = false
	v := isSorter(fn) || c.isSorter(fn.Parent())
	if !v && fn.Parent() == nil && !isEntry(fn) && fn.Pkg != nil {
		n := 0
		v = true
		for _, g := range c.p.pkgFuncs(fn.Pkg.Pkg.Name()) {
			for _, in := range usesOf(g, fn) {
				n++
				call, ok := in.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() != fn || !c.isSorter(in.Parent()) {
					v = false
				}
			}
		}
		v = v && n > 0
	}
	c.sorters[fn] = v
	return v
}

// usesOf are the instructions of a function, and of the function literals in it, that mention another function.
func usesOf(g, fn *ssa.Function) []ssa.Instruction {
	var r []ssa.Instruction
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok && f == fn {
					r = append(r, in)
					break
				}
			}
		}
	}
	for _, a := range g.AnonFuncs {
		r = append(r, usesOf(a, fn)...)
	}
	return r
}

func isSorter(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if fn.Signature.Recv() != nil {
		return fn.Name() == "Less" || fn.Name() == "Swap"
	}
	if fn.Parent() == nil {
		return false
	}
	// the ordering given to sort.Slice
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || len(call.Call.Args) != 2 {
				continue
			}
			f := call.Call.StaticCallee()
			if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sort" || !strings.HasPrefix(f.Name(), "Slice") {
				continue
			}
			switch a := call.Call.Args[1].(type) {
			case *ssa.MakeClosure:
				if a.Fn == fn {
					return true
				}
			case *ssa.Function:
				if a == fn {
					return true
				}
			}
		}
	}
	return false
}

func pkgOf(ev *Event) *types.Package {
	for f := ev.InFn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
	}
	return nil
}

func bigNonZero(e *Engine, facts []Fact, v *Term) bool {
	if n, ok := v.int64(); ok {
		return n != 0
	}
	switch v.Op {
	case "bigop":
		return false
	case "conv":
		return bigNonZero(e, facts, v.Args[0])
	}
	k, ok := e.known(facts, e.eq(v, e.tt.intc(0)))
	return ok && !k
}

// demands looks at the callers of the functions that need something of their parameters.
func (c *Ctx) demands(ds []demand) {
	seen := map[demand]bool{}
	for _, d := range ds {
		if seen[d] {
			continue
		}
		seen[d] = true
		name := fnName(c, d.fn)
		n := 0
		for _, rt := range c.runtimeRoots("main", "loading", "api", "peers", "chains") {
			paths, e := c.runtimePaths(rt)
			var pr *prover
			walk(paths, func(s site) {
				if s.ev.Kind != "call" || s.ev.Call == nil || !c.mayCall(s.ev.Call, d.fn) {
					return
				}
				i := d.i
				if i >= len(s.ev.Args) {
					return
				}
				n++
				if pr == nil {
					pr = newProver(e, paths)
					pr.bound = knownSizes(pr)
				}
				a := s.ev.Args[i]
				facts := s.facts()
				at := fnName(c, rt.fn)
				if d.isLen {
					ok := pr.le(facts, e.tt.intc(d.lo), e.lenOf(a, nil, &State{facts: facts}), 0, 6) || c.givesNonEmpty(a, d.lo)
					c.check(ok, "argument", at, s.ev.Pos, s.path, "%s needs a list of at least %d elements and may get fewer: %v", name, d.lo, a)
					return
				}
				ok := pr.le(facts, e.tt.intc(d.lo), a, 0, 6)
				if d.hi {
					h := pr.high(facts, a, 4)
					ok = ok && h != nil && h.Cmp(big.NewInt(1<<20)) <= 0
				}
				c.check(ok, "argument", at, s.ev.Pos, s.path, "%s makes a list of as many elements as it is told to, and is told %v", name, a)
			})
		}
		if n == 0 {
			c.note("%s needs something of its parameter %d and is not called", name, d.i)
		}
	}
}

// givesNonEmpty: the list comes from a function of the module that gives at least n elements whenever it reports no
// error, called with the arguments of that call.
func (c *Ctx) givesNonEmpty(a *Term, n int64) bool {
	if a.Op != "ext" || a.Sym != "0" {
		return false
	}
	call := a.Args[0]
	if call.Op != "ucall" && call.Op != "call" {
		return false
	}
	name := callName(call)
	name = name[strings.LastIndexByte(name, '.')+1:]
	found := 0
	for _, rt := range c.runtimeRoots("chains", "peers") {
		if rt.fn.Name() != name || len(rt.fn.Params) != len(call.Args) {
			continue
		}
		paths, e := c.runtimePaths(rt)
		pr := newProver(e, paths)
		found++
		for _, p := range paths {
			if p.Kind != "return" || len(p.Results) < 2 || e.knownNonNil(p.Facts, p.ret(-1)) {
				continue
			}
			facts := p.Facts
			for i, pa := range rt.fn.Params {
				if v := call.Args[i]; v.isConst() {
					if k, ok := v.int64(); ok {
						facts = append(facts[:len(facts):len(facts)], Fact{Atom: e.eq(e.paramTerm(rt.fn, i, pa), e.tt.intc(k)), Val: true})
					}
				}
			}
			if !pr.le(facts, e.tt.intc(n), e.lenOf(p.ret(0), nil, &State{facts: facts}), 0, 6) {
				return false
			}
		}
	}
	return found > 0
}

// mayCall: the call may reach the function, directly or through an interface.
func (c *Ctx) mayCall(call ssa.CallInstruction, fn *ssa.Function) bool {
	cc := call.Common()
	if !cc.IsInvoke() {
		return c.p.unwrap(cc.StaticCallee()) == fn
	}
	recv := fn.Signature.Recv()
	if recv == nil || cc.Method.Name() != fn.Name() {
		return false
	}
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	return ok && types.Implements(recv.Type(), it)
}

// nullable lists the fields of pointer-like types of the module's structs that may be nil: nil is stored in them, or
// an object is made without setting them.
func (c *Ctx) nullable() map[string]bool {
	r := map[string]bool{}
	for _, pk := range []string{"chains", "peers", "loading", "api", "main"} {
		for _, fn := range c.p.pkgFuncs(pk) {
			c.nullIn(fn, r)
			for _, a := range fn.AnonFuncs {
				c.nullIn(a, r)
			}
		}
	}
	return r
}

func pointerLike(T types.Type) bool {
	switch T.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan:
		return true
	}
	return false
}

func (c *Ctx) fieldKey(T types.Type, i int) string {
	n, ok := types.Unalias(deref(T)).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !c.p.byPkg[n.Obj().Pkg()] {
		return ""
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() || !pointerLike(s.Field(i).Type()) {
		return ""
	}
	return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + s.Field(i).Name()
}

// setFields finds the fields of a variable that are set, by the function it stands in or by function literals that use
// it; it tells whether the variable is set as a whole.
func setFields(v ssa.Value, set map[int]bool) bool {
	whole := false
	for _, ref := range *v.Referrers() {
		switch u := ref.(type) {
		case *ssa.FieldAddr:
			for _, y := range *u.Referrers() {
				if st, ok := y.(*ssa.Store); ok && st.Addr == ssa.Value(u) {
					set[u.Field] = true
				}
			}
		case *ssa.Store:
			if u.Addr == v {
				whole = true
			} else if cell, ok := u.Addr.(*ssa.Alloc); ok && len(cellStores(cell)) == 1 {
				// The object is named by a captured variable that always holds it.
				if setFieldsThrough(cell, set) {
					whole = true
				}
			}
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if fn, ok := u.Fn.(*ssa.Function); ok && b == v && setFields(fn.FreeVars[i], set) {
					whole = true
				}
			}
		}
	}
	return whole
}

// setFieldsThrough looks at what is set through the content of a variable.
func setFieldsThrough(cell ssa.Value, set map[int]bool) bool {
	whole := false
	for _, ref := range *cell.Referrers() {
		switch u := ref.(type) {
		case *ssa.UnOp:
			if u.Op == token.MUL && setFields(u, set) {
				whole = true
			}
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if fn, ok := u.Fn.(*ssa.Function); ok && b == cell && setFieldsThrough(fn.FreeVars[i], set) {
					whole = true
				}
			}
		}
	}
	return whole
}

// cellStores returns what is put into a variable, by its function and the functions it is captured by.
func cellStores(cell ssa.Value) []ssa.Value {
	var r []ssa.Value
	for _, ref := range *cell.Referrers() {
		switch u := ref.(type) {
		case *ssa.Store:
			if u.Addr == cell {
				r = append(r, u.Val)
			}
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if fn, ok := u.Fn.(*ssa.Function); ok && b == cell {
					r = append(r, cellStores(fn.FreeVars[i])...)
				}
			}
		}
	}
	return r
}

// madeHere returns the object v is known to be: an object made by the function, or by the one around it, that v
// names directly or through a variable nothing else is put into.
func madeHere(v ssa.Value) *ssa.Alloc {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		cell, ok := captured(x.X).(*ssa.Alloc)
		if !ok {
			return nil
		}
		if vs := cellStores(cell); len(vs) == 1 {
			return madeHere(vs[0])
		}
	case *ssa.FreeVar:
		if w := captured(x); w != nil && w != v {
			return madeHere(w)
		}
	}
	return nil
}

// captured returns the variable of the function around that a captured variable stands for.
func captured(v ssa.Value) ssa.Value {
	for {
		fv, ok := v.(*ssa.FreeVar)
		if !ok {
			return v
		}
		fn := fv.Parent()
		i := 0
		for i < len(fn.FreeVars) && fn.FreeVars[i] != fv {
			i++
		}
		var next ssa.Value
		if fn.Parent() != nil {
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
						if next != nil && next != mc.Bindings[i] {
							return v
						}
						next = mc.Bindings[i]
					}
				}
			}
		}
		if next == nil {
			return v
		}
		v = next
	}
}

func (c *Ctx) nullIn(fn *ssa.Function, r map[string]bool) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				k, isc := x.Val.(*ssa.Const)
				if ok && isc && k.IsNil() {
					if key := c.fieldKey(fa.X.Type(), fa.Field); key != "" {
						r[key] = true
					}
				}
			case *ssa.Alloc:
				n, ok := types.Unalias(deref(x.Type())).(*types.Named)
				if !ok {
					continue
				}
				s, ok := n.Underlying().(*types.Struct)
				if !ok {
					continue
				}
				set := map[int]bool{}
				whole := setFields(x, set)
				if whole {
					continue
				}
				for i := 0; i < s.NumFields(); i++ {
					if !set[i] {
						if key := c.fieldKey(n, i); key != "" {
							r[key] = true
						}
					}
				}
			}
		}
	}
}
