package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) ev(fr *frame, st *State, kind, fn string, pos token.Pos, args ...*Term) *Event {
	v := &Event{Kind: kind, Fn: fn, Args: args, Pos: pos, Stack: fr.stack, NFacts: len(st.facts), InFn: fr.fn}
	st.push(v)
	return v
}

func ret(st *State, res ...*Term) []*outcome {
	return []*outcome{{kind: "return", st: st, results: res}}
}

// callInstr handles a call, a deferred call or the call of a go statement.
func (e *Engine) callInstr(fr *frame, in ssa.CallInstruction, c *ssa.CallCommon, fnT *Term, args []*Term, st *State) []*outcome {
	if c.IsInvoke() {
		recv := args[0]
		// devirtualise if the dynamic type is known
		if r := recv; r.Op == "iface" && r.Typ != nil {
			if m := e.p.prog.LookupMethod(r.Typ, c.Method.Pkg(), c.Method.Name()); m != nil && m.Blocks != nil {
				a2 := append([]*Term{r.Args[0]}, args[1:]...)
				if e.inlinable(m, fr) {
					if m.Synthetic == "" {
						e.ev(fr, st, "enter", e.p.funcName(m), in.Pos(), a2...)
					}
					return e.call(m, a2, nil, st, fr)
				}
				if m.Synthetic == "" {
					return e.external(fr, in, e.p.funcName(m), m.Signature, a2, st, false)
				}
			}
		}
		name := e.p.typesFuncName(c.Method)
		return e.external(fr, in, name, c.Signature(), args, st, true)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, in, b.Name(), c, args, st)
	}
	fn, bind := e.resolve(fnT)
	if fn == nil {
		fn = c.StaticCallee()
	}
	if fn == nil {
		return e.external(fr, in, "dyn", c.Signature(), append([]*Term{fnT}, args...), st, false)
	}
	// bound method wrappers and thunks of functions without body
	name := e.p.funcName(fn)
	if fn.Blocks != nil && e.inlinable(fn, fr) {
		if !strings.HasPrefix(fn.Synthetic, "bound") && !strings.HasPrefix(fn.Synthetic, "wrapper") && !strings.HasPrefix(fn.Synthetic, "thunk") {
			e.ev(fr, st, "enter", name, in.Pos(), args...)
		}
		outs := e.call(fn, args, bind, st, fr)
		return outs
	}
	return e.external(fr, in, name, c.Signature(), args, st, false)
}

func (e *Engine) builtin(fr *frame, in ssa.CallInstruction, name string, c *ssa.CallCommon, args []*Term, st *State) []*outcome {
	switch name {
	case "len":
		return ret(st, e.lenOf(args[0], c.Args[0].Type(), st))
	case "cap":
		return ret(st, e.tt.mk("cap", "", types.Typ[types.Int], args[0]))
	case "append":
		return ret(st, e.appendOp(fr, in, args, c, st))
	case "copy":
		dst, src := args[0], args[1]
		e.writeSeg(st, dst, e.bytesOf(src, st))
		return ret(st, e.tt.mk("copied", "#"+e.newUID(), types.Typ[types.Int]))
	case "delete":
		e.mapDel(st, args[0], args[1])
		e.ev(fr, st, "mapdel", "", in.Pos(), args[0], args[1])
		return ret(st)
	case "close":
		e.ev(fr, st, "close", "", in.Pos(), args[0])
		return ret(st)
	case "panic":
		return []*outcome{{kind: "panic", st: st, pos: in.Pos(), fn: fr.fn, stack: fr.stack, panicV: args[0]}}
	case "min", "max":
		if len(args) == 2 {
			a, b := args[0], args[1]
			x, ok1 := a.int64()
			y, ok2 := b.int64()
			if ok1 && ok2 {
				if (name == "min") == (x < y) {
					return ret(st, a)
				}
				return ret(st, b)
			}
			if a.ID > b.ID {
				a, b = b, a
			}
			return ret(st, e.tt.mk("minmax", name, c.Signature().Results().At(0).Type(), a, b))
		}
		return ret(st, e.tt.mk("minmax", name, c.Signature().Results().At(0).Type(), args...))
	case "clear":
		e.ev(fr, st, "mapdel", "clear", in.Pos(), args[0], e.tt.nilc())
		st.own()
		for k := range st.mem {
			if k.Op == "mapcell" && k.Args[0] == args[0] {
				delete(st.mem, k)
			}
		}
		st.mem[e.tt.mk("mapver", "", nil, args[0])] = e.tt.mk("ver", "#"+e.newUID(), nil)
		return ret(st)
	case "print", "println", "recover":
		return ret(st, e.tt.nilc())
	}
	if r := c.Signature().Results(); r != nil && r.Len() > 0 {
		return ret(st, e.tt.mk("ucall", name+"#"+e.newUID(), r.At(0).Type(), args...))
	}
	return ret(st)
}

// elemsOfVarargs returns the elements of a slice literal or the implicit slice of a variadic call.
func (e *Engine) elemsOfVarargs(s *Term, st *State) ([]*Term, bool) {
	if s.Op == "nil" {
		return nil, true
	}
	if s.Op != "slice" || s.Args[0].Op != "alloc" {
		return nil, false
	}
	at, ok := deref(typOr(s.Args[0])).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	lo, _ := s.Args[1].int64()
	hi, ok := s.Args[2].int64()
	if !ok || hi-lo > 64 {
		return nil, false
	}
	var r []*Term
	for i := lo; i < hi; i++ {
		a := e.tt.mk("iaddr", "", types.NewPointer(at.Elem()), s.Args[0], e.tt.intc(i))
		r = append(r, e.load(st, a, at.Elem()))
	}
	return r, true
}

func (e *Engine) appendOp(fr *frame, in ssa.CallInstruction, args []*Term, c *ssa.CallCommon, st *State) *Term {
	T := c.Args[0].Type()
	base := args[0]
	if len(args) < 2 {
		return base
	}
	if isByteSlice(T) {
		return e.catBytes(e.bytesOf(base, st), e.bytesOf(args[1], st), T)
	}
	if el, ok := e.elemsOfVarargs(args[1], st); ok {
		if len(el) == 0 {
			return base
		}
		dl := make([]*Term, len(el))
		for i, x := range el {
			dl[i] = e.deep(x, st)
		}
		r := e.tt.mk("append", "", T, append([]*Term{base}, dl...)...)
		e.ev(fr, st, "append", "", in.Pos(), append([]*Term{base}, dl...)...).Res = r
		return r
	}
	r := e.tt.mk("concat", "", T, base, args[1])
	e.ev(fr, st, "concat", "", in.Pos(), base, args[1]).Res = r
	return r
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *Engine) lenOf(x *Term, T types.Type, st *State) *Term {
	switch x.Op {
	case "nil":
		return e.tt.intc(0)
	case "const":
		if s, ok := x.strVal(); ok {
			return e.tt.intc(int64(len(s)))
		}
	case "mkslice":
		return x.Args[0]
	case "slice":
		lo, ok1 := x.Args[1].int64()
		hi, ok2 := x.Args[2].int64()
		if ok1 && ok2 {
			return e.tt.intc(hi - lo)
		}
		if ok1 && lo == 0 && x.Args[2].Op != "nil" {
			return x.Args[2]
		}
		if lo := x.Args[1]; x.Args[2].Op == "nil" && lo.Op == "len" && lo.Args[0] == x.Args[0] {
			return e.tt.intc(0)
		}
	case "append":
		if n, ok := e.lenOf(x.Args[0], nil, st).int64(); ok {
			return e.tt.intc(n + int64(len(x.Args)-1))
		}
	case "cat":
		var n int64
		for _, s := range x.Args {
			k, ok := e.segLen(s)
			if !ok {
				return e.tt.mk("len", "", types.Typ[types.Int], x)
			}
			n += k
		}
		return e.tt.intc(n)
	case "alloc", "zero", "array":
		if T != nil {
			if a, ok := deref(T).Underlying().(*types.Array); ok {
				return e.tt.intc(a.Len())
			}
		}
	case "conv":
		// string <-> []byte keeps the length
		if isStrOrBytes(x.Typ) && isStrOrBytes(x.Args[0].Typ) {
			return e.lenOf(x.Args[0], nil, st)
		}
	}
	if T != nil {
		if a, ok := deref(T).Underlying().(*types.Array); ok {
			return e.tt.intc(a.Len())
		}
	}
	return e.tt.mk("len", "", types.Typ[types.Int], x)
}

func isStrOrBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()&types.IsString != 0
	}
	return isByteSlice(t)
}

// ---- byte buffers ----

func (e *Engine) segLen(s *Term) (int64, bool) {
	switch s.Op {
	case "byte":
		return 1, true
	case "be64", "le64":
		return 8, true
	case "be32":
		return 4, true
	case "be16":
		return 2, true
	case "zeros":
		return s.Args[0].int64()
	case "slice":
		lo, ok1 := s.Args[1].int64()
		hi, ok2 := s.Args[2].int64()
		if ok1 && ok2 && hi >= lo {
			return hi - lo, true
		}
	case "const":
		if v, ok := s.strVal(); ok {
			return int64(len(v)), true
		}
	}
	return 0, false
}

func (e *Engine) catBytes(a, b *Term, T types.Type) *Term {
	var segs []*Term
	add := func(t *Term) {
		if t.Op == "cat" {
			segs = append(segs, t.Args...)
		} else if t.Op == "nil" || (t.Op == "const" && t.is("const", `str:""`)) {
		} else if t.Op == "mkslice" {
			if n, ok := t.Args[0].int64(); !ok || n != 0 {
				segs = append(segs, t)
			}
		} else if n, ok := e.segLen(t); ok && n == 0 {
			return
		} else {
			segs = append(segs, t)
		}
	}
	add(a)
	add(b)
	if len(segs) == 1 {
		return segs[0]
	}
	return e.tt.mk("cat", "", T, segs...)
}

// writeSeg records that content is written at the start of dst.
func (e *Engine) writeSeg(st *State, dst, content *Term) {
	base, off := dst, e.tt.intc(0)
	if dst.Op == "slice" {
		base, off = dst.Args[0], dst.Args[1]
	}
	switch base.Op {
	case "mkslice", "alloc":
		st.set(e.tt.mk("seg", "", nil, base, off), content)
	}
}

// bytesOf gives the canonical content of a byte slice at this point.
func (e *Engine) bytesOf(x *Term, st *State) *Term {
	orig := x
	lo := int64(0)
	hi := int64(-1)
	whole := true
	if x.Op == "slice" {
		l, ok := x.Args[1].int64()
		if !ok {
			return orig
		}
		lo = l
		if h, ok := x.Args[2].int64(); ok {
			hi = h
		} else if x.Args[2].Op != "nil" {
			return orig
		}
		x = x.Args[0]
		whole = lo == 0
		if x.Op == "cat" || x.Op == "bytesof" {
			return e.subCat(orig, x, lo, hi)
		}
	}
	switch x.Op {
	case "conv":
		if isStrOrBytes(x.Typ) && isStrOrBytes(x.Args[0].Typ) {
			return e.bytesOf(x.Args[0], st)
		}
		return orig
	case "mkslice", "alloc":
	default:
		return orig
	}
	total := int64(-1)
	var lenT *Term
	if x.Op == "mkslice" {
		lenT = x.Args[0]
		if n, ok := x.Args[0].int64(); ok {
			total = n
		}
	} else {
		at, ok := deref(typOr(x)).Underlying().(*types.Array)
		if !ok {
			return orig
		}
		total = at.Len()
		// an array assigned as a whole value
		if v, ok := st.mem[x]; ok {
			if v.Op == "array" {
				var segs []*Term
				for _, b := range v.Args {
					segs = append(segs, e.tt.mk("byte", "", nil, strip(b)))
				}
				return e.subSegs(orig, segs, lo, hi, total)
			}
			if v.Op != "zero" && whole && (hi < 0 || hi == total) {
				return e.tt.mk("arr", "", nil, v)
			}
			return orig
		}
	}
	type sg struct {
		off int64
		n   int64 // -1 unknown
		t   *Term
	}
	var segs []sg
	for k, v := range st.mem {
		if k.Op == "iaddr" && k.Args[0] == x {
			i, ok := k.Args[1].int64()
			if !ok || v.Op == "havoc" {
				return orig
			}
			segs = append(segs, sg{i, 1, e.tt.mk("byte", "", nil, strip(v))})
		}
		if k.Op == "seg" && k.Args[0] == x {
			i, ok := k.Args[1].int64()
			if !ok || v.Op == "havoc" {
				return orig
			}
			n, known := e.segLenCat(v)
			if !known {
				n = -1
			}
			segs = append(segs, sg{i, n, v})
		}
	}
	sort.Slice(segs, func(i, j int) bool { return segs[i].off < segs[j].off })
	var out []*Term
	pos := int64(0)
	for i, s := range segs {
		if s.off < pos {
			return orig // overlapping writes
		}
		if s.off > pos {
			out = append(out, e.tt.mk("zeros", "", nil, e.tt.intc(s.off-pos)))
		}
		if s.n < 0 && i != len(segs)-1 {
			return orig
		}
		if s.t.Op == "cat" {
			out = append(out, s.t.Args...)
		} else {
			out = append(out, s.t)
		}
		if s.n < 0 {
			// the content must fill the rest of the buffer exactly; otherwise its tail is zero or it is truncated
			if lenT != nil && !e.lenMatches(lenT, s.off, s.t, st) {
				out = append(out, e.tt.mk("pad", "", nil, lenT))
			}
			pos = total
			if pos < s.off {
				pos = s.off
			}
			if lo != 0 || hi >= 0 {
				return orig
			}
			if len(out) == 1 {
				return out[0]
			}
			return e.tt.mk("cat", "", nil, out...)
		}
		pos = s.off + s.n
	}
	if total >= 0 && pos < total {
		out = append(out, e.tt.mk("zeros", "", nil, e.tt.intc(total-pos)))
	} else if total < 0 {
		if len(segs) == 0 {
			return orig
		}
		out = append(out, e.tt.mk("pad", "", nil, lenT))
	}
	return e.subSegs(orig, out, lo, hi, total)
}

func (e *Engine) lenMatches(lenT *Term, off int64, content *Term, st *State) bool {
	addr := content.Op == "call" && content.Sym == "(netip.Addr).AsSlice"
	if _, ok := lenT.int64(); ok {
		return false // The length of the content varies: addresses of 4 or 16 bytes, IDs of 32 or 64.
	}
	want := e.addConst(e.lenOf(content, nil, st), off, types.Typ[types.Int])
	if want == lenT {
		return true
	}
	if !addr {
		return false
	}
	// prefix + BitLen/8 for netip.Addr.AsSlice
	n := lenT
	if off != 0 {
		k, ok := int64(0), false
		if n.Op == "bin" && n.Sym == "+" {
			if k, ok = n.Args[1].int64(); ok {
				n = n.Args[0]
			} else if k, ok = n.Args[0].int64(); ok {
				n = n.Args[1]
			}
		}
		if !ok || k != off {
			return false
		}
	}
	n = strip(n)
	k, by, ok := int64(0), int64(8), n.Op == "bin"
	if ok {
		k, ok = n.Args[1].int64()
	}
	if n.Op == "bin" && n.Sym == ">>" {
		by = 3
	}
	b := n
	if ok {
		b = strip(n.Args[0])
	}
	return ok && (n.Sym == "/" || n.Sym == ">>") && k == by && callName(b) == "(netip.Addr).BitLen" && b.Args[0] == content.Args[0]
}

func (e *Engine) segLenCat(t *Term) (int64, bool) {
	if t.Op == "cat" {
		var n int64
		for _, s := range t.Args {
			k, ok := e.segLen(s)
			if !ok {
				return 0, false
			}
			n += k
		}
		return n, true
	}
	return e.segLen(t)
}

func (e *Engine) subSegs(orig *Term, segs []*Term, lo, hi, total int64) *Term {
	if hi < 0 {
		hi = total
	}
	if lo == 0 && hi == total {
		if len(segs) == 1 {
			return segs[0]
		}
		if len(segs) == 0 {
			return orig
		}
		return e.tt.mk("cat", "", nil, segs...)
	}
	return e.subCat(orig, e.tt.mk("cat", "", nil, segs...), lo, hi)
}

func (e *Engine) subCat(orig, c *Term, lo, hi int64) *Term {
	if c.Op != "cat" {
		return orig
	}
	var out []*Term
	pos := int64(0)
	for i, s := range c.Args {
		n, ok := e.segLen(s)
		if !ok {
			if i == len(c.Args)-1 && lo <= pos && hi < 0 {
				out = append(out, s)
				pos = -1
				break
			}
			return orig
		}
		if pos >= lo && (hi < 0 || pos+n <= hi) {
			out = append(out, s)
		} else if pos+n > lo && (hi < 0 || pos < hi) {
			return orig
		}
		pos += n
	}
	if len(out) == 0 {
		return orig
	}
	if len(out) == 1 {
		return out[0]
	}
	return e.tt.mk("cat", "", nil, out...)
}

// deep replaces references to local mutable objects by their current contents.
func (e *Engine) deep(t *Term, st *State) *Term { return e.deepN(t, st, 0) }

func (e *Engine) deepN(t *Term, st *State, d int) *Term {
	if t == nil || d > 6 {
		return t
	}
	switch t.Op {
	case "bigalloc":
		return e.bigVal(t, st)
	case "mkslice":
		if t.Typ != nil && isByteSlice(t.Typ) {
			return e.bytesOf(t, st)
		}
	case "slice":
		if t.Typ != nil && isByteSlice(t.Typ) {
			return e.bytesOf(t, st)
		}
		if el, ok := e.elemsOfVarargs(t, st); ok && len(el) > 0 {
			r := make([]*Term, len(el))
			for i, x := range el {
				r[i] = e.deepN(x, st, d+1)
			}
			return e.tt.mk("list", "", t.Typ, r...)
		}
	case "struct", "iface", "tuple", "append", "array":
		changed := false
		r := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			r[i] = e.deepN(a, st, d+1)
			if r[i] != a {
				changed = true
			}
		}
		if changed {
			return e.tt.mk(t.Op, t.Sym, t.Typ, r...)
		}
	}
	return t
}

// content resolves a pointer to a local struct to the struct value.
func (e *Engine) content(t *Term, st *State) *Term {
	x := unface(t)
	if x.Op == "alloc" && x.Typ != nil {
		if isNamed(x.Typ, "big", "Int") {
			return e.bigVal(x, st)
		}
		return e.deep(e.load(st, x, deref(x.Typ)), st)
	}
	return e.deep(t, st)
}

// inside gives the content of a local object with the content of the local objects its fields point at.
func (e *Engine) inside(t *Term, st *State) *Term {
	v := e.content(t, st)
	if v.Op != "struct" {
		return v
	}
	args := make([]*Term, len(v.Args))
	for i, a := range v.Args {
		args[i] = a
		if u := unface(a); u.Op == "alloc" && u != unface(t) {
			args[i] = e.tt.mk("ref", "", a.Typ, e.content(a, st))
		}
	}
	return e.tt.mk("struct", v.Sym, v.Typ, args...)
}

// ---- big.Int ----

func (e *Engine) bigCell(p *Term) *Term { return e.tt.mk("bigcell", "", nil, p) }

func (e *Engine) bigVal(p *Term, st *State) *Term {
	if v, ok := st.mem[e.bigCell(p)]; ok {
		return v
	}
	if p.Op == "alloc" {
		return e.tt.intc(0)
	}
	return p
}

// ---- external calls ----

func (e *Engine) external(fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State, invoke bool) []*outcome {
	pos := in.Pos()
	// quiet calls
	if strings.HasPrefix(name, "(*zap.") || strings.HasPrefix(name, "zap.") {
		if name == "(*zap.SugaredLogger).Fatalf" || name == "(*zap.SugaredLogger).Fatal" || name == "(*zap.SugaredLogger).Panicf" {
			e.ev(fr, st, "call", name, pos, args...)
		}
		return ret(st, e.results(name, sig, args, st, false)...)
	}
	if strings.HasPrefix(name, "(*big.Int).") && !nilSafe(name) {
		var ps, vs []*Term
		for _, a := range args {
			if a.Typ != nil && isNamed(a.Typ, "big", "Int") {
				ps = append(ps, a)
				vs = append(vs, e.bigVal(a, st))
			}
		}
		st.push(&Event{Kind: "use", Fn: name, Args: ps, Vals: vs, Pos: pos, Stack: fr.stack, NFacts: len(st.facts), InFn: fr.fn, Pure: true})
	}
	if m, ok := models[name]; ok {
		if outs := m(e, fr, in, name, sig, args, st); outs != nil {
			return outs
		}
	}
	pure := isPure(name)
	dargs := make([]*Term, len(args))
	vals := make([]*Term, len(args))
	for i, a := range args {
		dargs[i] = e.deep(a, st)
		vals[i] = dargs[i]
		if !pure && unface(a).Op == "alloc" {
			vals[i] = e.content(a, st)
		}
	}
	if !pure {
		// contents behind pointers to local objects are unknown afterwards
		for i, a := range args {
			x := unface(a)
			if x.Op == "alloc" && x.Typ != nil && !readOnlyArg(name, i) {
				dargs[i] = a
				e.clobber(st, x, name)
			}
		}
	}
	if isSort(name) && len(args) > 0 {
		dargs[0] = args[0]
	}
	res := e.results(name, sig, dargs, st, pure)
	evn := e.ev(fr, st, "call", name, pos, dargs...)
	evn.Vals = vals
	if isSort(name) && len(args) > 0 {
		b := e.sliceBase(strip(args[0]))
		t := e.tt.mk("sorted", "#"+e.newUID(), b.Typ, b)
		st.set(e.tt.mk("sortver", "", nil, b), t)
		evn.Res = t
		evn.Call = in
		return ret(st)
	}
	evn.Pure = pure
	evn.Call = in
	if invoke {
		evn.Extra = "invoke"
	}
	switch len(res) {
	case 1:
		evn.Res = res[0]
	case 0:
	default:
		evn.Res = res[0].Args[0]
	}
	// functions given to unknown code: record what they would do
	return ret(st, res...)
}

func (e *Engine) clobber(st *State, x *Term, why string) {
	st.own()
	for k := range st.mem {
		if isAddrOf(k, x) || k.Op == "bigcell" && k.Args[0] == x {
			delete(st.mem, k)
		}
	}
	st.mem[x] = e.tt.mk("out", why+"#"+e.newUID(), deref(x.Typ))
}

func (e *Engine) results(name string, sig *types.Signature, args []*Term, st *State, pure bool) []*Term {
	n := 0
	if sig != nil && sig.Results() != nil {
		n = sig.Results().Len()
	}
	if n == 0 {
		return nil
	}
	var T types.Type = sig.Results()
	if n == 1 {
		T = sig.Results().At(0).Type()
	}
	var c *Term
	if pure {
		c = e.tt.mk("call", name, T, args...)
	} else {
		c = e.tt.mk("ucall", name+"#"+e.newUID(), T, args...)
	}
	if n == 1 {
		return []*Term{c}
	}
	r := make([]*Term, n)
	for i := range r {
		r[i] = e.tt.mk("ext", fmt.Sprint(i), sig.Results().At(i).Type(), c)
	}
	return r
}

func callName(t *Term) string {
	if t == nil {
		return ""
	}
	switch t.Op {
	case "call":
		return t.Sym
	case "ucall":
		return t.Sym[:strings.LastIndex(t.Sym, "#")]
	}
	return ""
}

type model func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome

var models map[string]model

func init() {
	models = map[string]model{
		"fmt.Errorf": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			el, ok := e.elemsOfVarargs(args[1], st)
			f, isC := args[0].strVal()
			if !ok || !isC {
				return ret(st, e.tt.mk("errorf", "?#"+e.newUID(), sig.Results().At(0).Type(), args...))
			}
			var wrapped, rest []*Term
			vi := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				i++
				for i < len(f) && strings.ContainsRune("+-# 0123456789.", rune(f[i])) {
					i++
				}
				if i >= len(f) || f[i] == '%' {
					continue
				}
				if vi < len(el) {
					if f[i] == 'w' {
						wrapped = append(wrapped, el[vi])
					} else {
						rest = append(rest, el[vi])
					}
				}
				vi++
			}
			w := e.tt.mk("wraps", "", nil, wrapped...)
			r := e.tt.mk("rest", "", nil, rest...)
			return ret(st, e.tt.mk("errorf", f, sig.Results().At(0).Type(), w, r))
		},
		"errors.New": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			return ret(st, e.tt.mk("errorf", "New", sig.Results().At(0).Type(), e.tt.mk("wraps", "", nil), args[0]))
		},
		"errors.Is": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			return ret(st, e.errorsIs(unfaceErr(args[0]), args[1], st))
		},
		"errors.Join": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			if el, ok := e.elemsOfVarargs(args[0], st); ok {
				return ret(st, e.tt.mk("errorf", "Join", sig.Results().At(0).Type(), e.tt.mk("wraps", "", nil, el...), e.tt.mk("rest", "", nil)))
			}
			return nil
		},
		"cbor.Marshal": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			v := e.content(args[0], st)
			v = unface(v)
			c := e.tt.mk("call", "cbor.Marshal", sig.Results(), v)
			ev := e.ev(fr, st, "call", name, in.Pos(), v)
			ev.Res = c
			return ret(st, e.tt.mk("ext", "0", sig.Results().At(0).Type(), c), e.tt.mk("ext", "1", sig.Results().At(1).Type(), c))
		},
		"cbor.Unmarshal": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			data := e.deep(args[0], st)
			p := unface(args[1])
			T := deref(typOr(p))
			tn := types.TypeString(T, e.p.qual)
			c := e.tt.mk("call", "cbor.Unmarshal:"+tn, sig.Results().At(0).Type(), data)
			ev := e.ev(fr, st, "call", name, in.Pos(), data, p)
			ev.Res = c
			ev.Extra = tn
			e.store(st, p, e.tt.mk("decoded", tn, T, data))
			return ret(st, c)
		},
		"(*leveldb.Snapshot).Get": snapGet,
		"(*leveldb.Snapshot).Has": snapGet,
		"(*leveldb.DB).Get":       liveGet,
		"(*leveldb.DB).Has":       liveGet,
		"(*leveldb.Batch).Put": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			e.ev(fr, st, "call", name, in.Pos(), args[0], e.bytesOf(args[1], st), e.deep(args[2], st))
			return ret(st)
		},
		"(*leveldb.Batch).Delete": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			e.ev(fr, st, "call", name, in.Pos(), args[0], e.bytesOf(args[1], st))
			return ret(st)
		},
		"(*leveldb.Batch).Reset": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			e.ev(fr, st, "call", name, in.Pos(), args...)
			return ret(st)
		},
		"(*leveldb.DB).Write": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			r := e.tt.mk("ucall", name+"#"+e.newUID(), sig.Results().At(0).Type(), args...)
			ev := e.ev(fr, st, "call", name, in.Pos(), args...)
			ev.Res = r
			ev.Call = in
			return ret(st, r)
		},
		"(binary.bigEndian).PutUint64": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			e.writeSeg(st, args[1], e.tt.mk("be64", "", nil, args[2]))
			return ret(st)
		},
		"(binary.littleEndian).PutUint64": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			e.writeSeg(st, args[1], e.tt.mk("le64", "", nil, args[2]))
			return ret(st)
		},
		"(binary.bigEndian).PutUint32": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			e.writeSeg(st, args[1], e.tt.mk("be32", "", nil, args[2]))
			return ret(st)
		},
		"(binary.bigEndian).PutUint16": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			e.writeSeg(st, args[1], e.tt.mk("be16", "", nil, args[2]))
			return ret(st)
		},
		"(binary.bigEndian).AppendUint64": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			return ret(st, e.catBytes(e.bytesOf(args[1], st), e.tt.mk("be64", "", nil, args[2]), sig.Results().At(0).Type()))
		},
		"(binary.bigEndian).Uint64": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			b := e.bytesOf(args[1], st)
			if b.Op == "be64" {
				return ret(st, b.Args[0])
			}
			return ret(st, e.tt.mk("unbe64", "", types.Typ[types.Uint64], b))
		},
		"bytes.Equal": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			return ret(st, e.eq(e.bytesOf(args[0], st), e.bytesOf(args[1], st)))
		},
		"slices.Concat": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			el, ok := e.elemsOfVarargs(args[0], st)
			if !ok || len(el) == 0 {
				return nil
			}
			T := sig.Results().At(0).Type()
			r := e.bytesOf(el[0], st)
			for _, x := range el[1:] {
				if isByteSlice(T) {
					r = e.catBytes(r, e.bytesOf(x, st), T)
				} else {
					r = e.tt.mk("concat", "", T, r, x)
				}
			}
			return ret(st, r)
		},
		"(netip.Addr).Compare":     cmpModel("eq"),
		"(netip.AddrPort).Compare": cmpModel("eq"),
		"bytes.Compare":            cmpModel("eq"),
		"strings.Compare":          cmpModel("eq"),
		"(proto.Version).Cmp":      cmpModel("eq"),
		"utf8.ValidString": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			if s, ok := args[0].strVal(); ok {
				return ret(st, e.tt.boolc(utf8.ValidString(s)))
			}
			return nil
		},
		"(time.Time).Compare": cmpModel("time"),
		"cmp.Compare":         cmpModel("eq"),
		"(time.Time).Before": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			return ret(st, e.tt.mk("call", "(time.Time).After", types.Typ[types.Bool], args[1], args[0]))
		},
		"time.Since": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			now := e.tt.mk("ucall", "time.Now#"+e.newUID(), args[0].Typ)
			return ret(st, e.tt.mk("call", "(time.Time).Sub", sig.Results().At(0).Type(), now, args[0]))
		},
		"time.Until": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			now := e.tt.mk("ucall", "time.Now#"+e.newUID(), args[0].Typ)
			return ret(st, e.tt.mk("call", "(time.Time).Sub", sig.Results().At(0).Type(), args[0], now))
		},
		"(netip.AddrPort).Addr": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			if args[0].Op == "call" && args[0].Sym == "netip.AddrPortFrom" {
				return ret(st, args[0].Args[0])
			}
			return nil
		},
		"(netip.AddrPort).Port": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			if args[0].Op == "call" && args[0].Sym == "netip.AddrPortFrom" {
				return ret(st, args[0].Args[1])
			}
			return nil
		},
		"(*errgroup.Group).Go": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			e.async(fr, in, args[1], name, args, st)
			return ret(st)
		},
		"context.AfterFunc": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			e.async(fr, in, args[1], name, args, st)
			res := e.results(name, sig, args, st, false)
			st.ev.ev.Res = res[0]
			return ret(st, res...)
		},
		"time.AfterFunc": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			e.async(fr, in, args[1], name, args, st)
			res := e.results(name, sig, args, st, false)
			st.ev.ev.Res = res[0]
			return ret(st, res...)
		},
		// big.Int values
		"big.NewInt": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			p := e.tt.mk("bigalloc", "#"+e.newUID(), sig.Results().At(0).Type())
			st.set(e.bigCell(p), unconv(args[0]))
			return ret(st, p)
		},
		"(*big.Int).Cmp": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			return ret(st, e.cmp("big", e.bigVal(args[0], st), e.bigVal(args[1], st)))
		},
		"(*big.Int).Sign": func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
			v := e.bigVal(args[0], st)
			if v.Op == "bigop" && v.Sym == "Sub" {
				return ret(st, e.cmp("big", v.Args[0], v.Args[1]))
			}
			return ret(st, e.cmp("big", v, e.tt.intc(0)))
		},
	}
	for _, op := range []string{"Add", "Sub", "Mul", "Div", "Quo", "Mod", "Rem", "Lsh", "Rsh", "Exp", "Neg", "Abs", "Set", "SetInt64",
		"SetUint64", "SetBytes", "And", "Or", "Xor", "Sqrt"} {
		models["(*big.Int)."+op] = bigOp(op)
	}
	models["(*big.Int).SetString"] = func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
		s, ok1 := args[1].strVal()
		b, ok2 := args[2].int64()
		if ok1 && ok2 && (b == 10 || b == 0) {
			v := constant.MakeFromLiteral(s, token.INT, 0)
			if v.Kind() == constant.Int {
				e.bigSet(st, args[0], e.tt.constant(v, nil))
				return ret(st, args[0], e.tt.boolc(true))
			}
		}
		if ok1 && ok2 && b == 16 {
			v := constant.MakeFromLiteral("0x"+s, token.INT, 0)
			if v.Kind() == constant.Int {
				e.bigSet(st, args[0], e.tt.constant(v, nil))
				return ret(st, args[0], e.tt.boolc(true))
			}
		}
		e.bigSet(st, args[0], e.tt.mk("bigop", "SetString", nil, args[1], args[2]))
		return ret(st, args[0], e.tt.mk("ucall", name+"#"+e.newUID(), types.Typ[types.Bool]))
	}
}

func unconv(t *Term) *Term {
	for t != nil && t.Op == "conv" && isInt(t.Args[0]) {
		t = t.Args[0]
	}
	return t
}

func (e *Engine) bigSet(st *State, p, v *Term) { st.set(e.bigCell(p), v) }

func bigOp(op string) model {
	return func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
		var vs []*Term
		for i, a := range args[1:] {
			if sig.Params() != nil && i < sig.Params().Len() {
				if _, ok := sig.Params().At(i).Type().Underlying().(*types.Pointer); ok {
					vs = append(vs, e.bigVal(a, st))
					continue
				}
			}
			vs = append(vs, e.deep(unconv(a), st))
		}
		var r *Term
		switch op {
		case "Set", "SetInt64", "SetUint64":
			r = vs[0]
		case "Add", "Mul", "And", "Or", "Xor":
			if vs[0].ID > vs[1].ID {
				vs[0], vs[1] = vs[1], vs[0]
			}
			if z, ok := vs[0].int64(); ok && z == 0 && op == "Add" {
				r = vs[1]
			} else if z, ok := vs[1].int64(); ok && z == 0 && op == "Add" {
				r = vs[0]
			}
		case "Quo":
			// equal to Div for non-negative operands, which is all this code base uses
			op2 := "Div"
			r = e.tt.mk("bigop", op2, nil, vs...)
		case "Lsh":
			if vs[0].isConst() && vs[1].isConst() {
				if n, ok := vs[1].int64(); ok && n >= 0 && n < 1000 {
					r = e.tt.constant(constant.Shift(vs[0].Cval, token.SHL, uint(n)), nil)
				}
			}
		case "Exp":
			if len(vs) == 3 && vs[0].isConst() && vs[1].isConst() && vs[2].Op == "nil" {
				n, ok := vs[1].int64()
				if ok && n >= 0 && n < 1000 {
					v := constant.MakeInt64(1)
					for i := int64(0); i < n; i++ {
						v = constant.BinaryOp(v, token.MUL, vs[0].Cval)
					}
					r = e.tt.constant(v, nil)
				}
			}
		}
		if r == nil {
			r = e.tt.mk("bigop", op, nil, vs...)
		}
		e.bigSet(st, args[0], r)
		if rt := args[0]; rt.Op != "bigalloc" && rt.Op != "alloc" {
			e.ev(fr, st, "bigmut", op, in.Pos(), args[0], r)
		}
		return ret(st, args[0])
	}
}

func (e *Engine) cmp(kind string, a, b *Term) *Term {
	if a == b {
		return e.tt.intc(0)
	}
	if a.ID > b.ID {
		return e.neg(e.tt.mk("cmp", kind, types.Typ[types.Int], b, a))
	}
	return e.tt.mk("cmp", kind, types.Typ[types.Int], a, b)
}

func cmpModel(kind string) model {
	return func(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
		return ret(st, e.cmp(kind, args[0], args[1]))
	}
}

func snapGet(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
	k := e.bytesOf(args[1], st)
	op := "get"
	if strings.HasSuffix(name, "Has") {
		op = "hasKey"
	}
	t := e.tt.mk(op, "", nil, args[0], k)
	ev := e.ev(fr, st, "call", name, in.Pos(), args[0], k)
	ev.Res = t
	ev.Call = in
	r0 := e.tt.mk("ext", "0", sig.Results().At(0).Type(), t)
	r1 := e.tt.mk("ext", "1", sig.Results().At(1).Type(), t)
	return ret(st, r0, r1)
}

// liveGet reads the database itself: like reading a snapshot taken now, or the one taken for the last such read if
// nothing was written since.
func liveGet(e *Engine, fr *frame, in ssa.CallInstruction, name string, sig *types.Signature, args []*Term, st *State) []*outcome {
	var snap *Term
	for n := st.ev; n != nil && snap == nil; n = n.prev {
		if n.ev.Kind == "loop" || dbEvent(n.ev) == "W" {
			break
		}
		if isCall(n.ev, "(*leveldb.DB).Get", "(*leveldb.DB).Has") && n.ev.Res != nil && n.ev.Res.Args[0].Args[0] == args[0] {
			snap = n.ev.Res.Args[0]
		}
	}
	if snap == nil {
		snap = e.tt.mk("ucall", "(*leveldb.DB).GetSnapshot#"+e.newUID(), nil, args[0])
	}
	return snapGet(e, fr, in, name, sig, append([]*Term{snap}, args[1:]...), st)
}

func unfaceErr(t *Term) *Term { return t }

// errorsIs evaluates errors.Is through the wrapping structure of constructed errors.
func (e *Engine) errorsIs(err, target *Term, st *State) *Term {
	if err == target {
		return e.tt.boolc(true)
	}
	if err.Op == "nil" {
		return e.tt.boolc(false)
	}
	if err.Op == "errorf" && len(err.Args) > 0 && err.Args[0].Op == "wraps" {
		ws := err.Args[0].Args
		if len(ws) == 0 {
			return e.tt.boolc(false)
		}
		if len(ws) == 1 {
			return e.errorsIs(unface(ws[0]), target, st)
		}
	}
	if isGlobalLoad(target, "leveldb.ErrNotFound") && (err.Op == "ext" && (err.Args[0].Op == "snap" || neverNotFound(callName(err.Args[0]))) || strings.HasPrefix(callName(err), "cbor.")) {
		return e.tt.boolc(false)
	}
	if err.Op == "load" && err.Args[0].Op == "global" && target.Op == "load" && target.Args[0].Op == "global" {
		return e.tt.boolc(false) // distinct sentinels
	}
	return e.tt.mk("errorsis", "", types.Typ[types.Bool], err, target)
}

var purePrefixes = []string{
	"proto.", "(proto.", "(*proto.", "netip.", "(netip.", "strings.", "strconv.", "fmt.Sprint", "errors.", "math.", "utf8.", "bytes.",
	"(time.Time).", "(time.Duration).", "time.Unix", "time.Date", "unicode.", "filepath.", "path.", "slices.Contains", "slices.Index", "slices.Max", "slices.Min",
	"crypto.", "(crypto.", "(*big.Int).", "(big.Int).", "net.TCPAddrFrom", "net.IPv4", "(net.IP)", "(*net.TCPAddr).", "net.ParseIP", "net.SplitHostPort",
	"(version.", "version.", "url.", "(url.", "(*url.", "settings.", "maps.", "util.BytesPrefix", "binary.", "(binary.", "chi.URLParam", "http.StatusText",
	"(peer.Peer).ID", "(peer.Peer).RemoteAddr", "(peer.Peer).Handshake", "(peer.Peer).Direction", "(peers.HistoryRequester).ID", "(net.Addr).", "(net.Conn).RemoteAddr",
	"(error).Error", "(fmt.Stringer).String", "(context.Context).Done", "(context.Context).Value", "(peer.ID).", "(fs.FileInfo).", "(os.FileInfo).", "os.IsNotExist",
	"(*http.Request).Context", "reflect.TypeOf", "runtime.NumGoroutine", "cmp.", "(unicode", "middleware.GetReqID",
}

// nilSafe lists the methods of big numbers that accept a nil receiver.
func nilSafe(name string) bool {
	switch strings.TrimPrefix(name, "(*big.Int).") {
	case "String", "Text", "MarshalJSON", "MarshalText", "Append", "Format", "GobEncode":
		return true
	}
	return false
}

var impure = []string{
	".UnmarshalBinary", ".UnmarshalFromProtobuf", ".ReadFrom", ".UnmarshalJSON", ".WriteTo", ".Unmarshal",
}

func isPure(name string) bool {
	for _, s := range impure {
		if strings.HasSuffix(name, s) {
			return false
		}
	}
	for _, p := range purePrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// readOnlyArg lists external functions that do not modify what their pointer arguments refer to.
func readOnlyArg(name string, i int) bool {
	switch {
	case strings.HasPrefix(name, "json."), strings.HasPrefix(name, "(*json."), strings.HasPrefix(name, "http.Error"),
		strings.HasPrefix(name, "fmt."), strings.HasPrefix(name, "os."), strings.HasPrefix(name, "(chains."), strings.HasPrefix(name, "(*chains."),
		strings.HasPrefix(name, "(peers."), strings.HasPrefix(name, "(*peers."), strings.HasPrefix(name, "(peer."), strings.HasPrefix(name, "leveldb."),
		strings.HasPrefix(name, "(*leveldb."), strings.HasPrefix(name, "(chi."), strings.HasPrefix(name, "(*chi."),
		strings.HasPrefix(name, "(*stateless."), strings.HasPrefix(name, "stateless."), strings.HasPrefix(name, "(*kairos."),
		strings.HasPrefix(name, "outgoing."), strings.HasPrefix(name, "incoming."), strings.HasPrefix(name, "sort."):
		return true
	}
	return false
}

// isSort recognises library calls that rearrange the elements of a slice.
func isSort(name string) bool {
	switch name {
	case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse":
		return true
	}
	return false
}

// neverNotFound lists calls whose errors are never leveldb.ErrNotFound: only lookups of a key report it.
func neverNotFound(name string) bool {
	switch name {
	case "(*leveldb.DB).GetSnapshot", "(*leveldb.DB).Write", "(*leveldb.DB).Put", "cbor.Marshal", "cbor.Unmarshal",
		"proto.NewBlockIDFromBytes", "proto.NewAddressFromBytes", "proto.NewAddressFromPublicKey", "proto.NewVersionFromString":
		return true
	}
	return strings.HasPrefix(name, "netip.Parse") || strings.HasPrefix(name, "strconv.Parse")
}
