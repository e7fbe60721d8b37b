package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- walking path summaries ----

// site is an event together with the path (possibly of a loop body or a started goroutine) it lies on.
type site struct {
	ev     *Event
	path   *Path
	idx    int
	inLoop []*Event // enclosing loops, outermost first
	inGo   []*Event // enclosing go statements
	top    *Path
}

func walk(paths []*Path, f func(s site)) {
	for _, p := range paths {
		walkPath(p, nil, nil, p, f)
	}
}

func walkPath(p *Path, loops, gos []*Event, top *Path, f func(s site)) {
	for i, ev := range p.Events {
		f(site{ev, p, i, loops, gos, top})
		if ev.Kind == "loop" {
			for _, b := range ev.Loop.Bodies {
				walkPath(b, append(loops[:len(loops):len(loops)], ev), gos, top, f)
			}
		}
		if ev.Kind == "go" {
			for _, b := range ev.Bodies {
				walkPath(b, loops, append(gos[:len(gos):len(gos)], ev), top, f)
			}
		}
	}
}

// before gives the facts known when the event happens.
func (s site) facts() []Fact {
	n := s.ev.NFacts
	if n > len(s.path.Facts) {
		n = len(s.path.Facts)
	}
	return s.path.Facts[:n]
}

// known evaluates a condition under a set of facts.
func (e *Engine) known(facts []Fact, c *Term) (bool, bool) {
	st := &State{mem: map[*Term]*Term{}, facts: facts}
	return e.eval(st, c)
}

func (e *Engine) holds(facts []Fact, c *Term) bool {
	v, ok := e.known(facts, c)
	return ok && v
}

func (e *Engine) isNilT(t *Term) *Term { return e.eq(t, e.tt.nilc()) }

func (e *Engine) knownNil(facts []Fact, t *Term) bool {
	if t == nil {
		return false
	}
	if t.Op == "nil" {
		return true
	}
	return e.holds(facts, e.isNilT(t))
}

func (e *Engine) knownNonNil(facts []Fact, t *Term) bool {
	if t == nil {
		return false
	}
	if e.nonNil(t) {
		return true
	}
	v, ok := e.known(facts, e.isNilT(t))
	return ok && !v
}

func (p *Path) ret(i int) *Term {
	if i < 0 {
		i += len(p.Results)
	}
	if i < 0 || i >= len(p.Results) {
		return nil
	}
	return p.Results[i]
}

// errResult is the last result of a returning path.
func (p *Path) errResult() *Term { return p.ret(-1) }

func isCall(ev *Event, names ...string) bool {
	if ev.Kind != "call" {
		return false
	}
	for _, n := range names {
		if ev.Fn == n {
			return true
		}
	}
	return false
}

func isCallSuffix(ev *Event, suffix ...string) bool {
	if ev.Kind != "call" {
		return false
	}
	for _, n := range suffix {
		if strings.HasSuffix(ev.Fn, n) {
			return true
		}
	}
	return false
}

func (c *Ctx) at(s *Event) string {
	if s.InFn == nil {
		return "?"
	}
	return c.p.funcName(s.InFn)
}

func fnName(c *Ctx, fn *ssa.Function) string { return c.p.funcName(fn) }

// ---- substitution and generic term walks ----

func (e *Engine) subst(t *Term, m map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if t == nil || len(t.Args) == 0 {
		return t
	}
	ch := false
	as := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		as[i] = e.subst(a, m)
		ch = ch || as[i] != a
	}
	if !ch {
		return t
	}
	if t.Op == "bin" && t.Sym == "+" {
		if n, ok := as[1].int64(); ok {
			return e.addConst(as[0], n, t.Typ)
		}
	}
	r := e.tt.mk(t.Op, t.Sym, t.Typ, as...)
	if r.Obj == nil {
		r.Obj = t.Obj
	}
	return r
}

// collect all distinct subterms satisfying f.
func collect(t *Term, f func(*Term) bool, into map[*Term]bool) {
	if t == nil {
		return
	}
	if f(t) {
		into[t] = true
	}
	for _, a := range t.Args {
		collect(a, f, into)
	}
}

// ---- keys and records of the chains database ----

// key splits a storage key into its prefix byte and the rest.
func keyOf(k *Term) (int64, []*Term, bool) {
	if k == nil || k.Op != "cat" || len(k.Args) == 0 {
		return 0, nil, false
	}
	b := k.Args[0]
	switch b.Op {
	case "byte":
		n, ok := b.Args[0].int64()
		return n, k.Args[1:], ok
	}
	return 0, nil, false
}

// numKey reports the number in a key prefix+be64(n).
func numKey(k *Term, prefix int64) *Term {
	p, rest, ok := keyOf(k)
	if !ok || p != prefix || len(rest) != 1 || rest[0].Op != "be64" {
		return nil
	}
	return rest[0].Args[0]
}

// idKey reports the block ID x of a key prefix+x.Bytes().
func idKey(k *Term, prefix int64) *Term {
	p, rest, ok := keyOf(k)
	if !ok || p != prefix || len(rest) != 1 {
		return nil
	}
	return idOfBytes(rest[0])
}

// idOfBytes gives X for X.Bytes().
func idOfBytes(b *Term) *Term {
	if b != nil && b.is("call", "(proto.BlockID).Bytes") {
		return b.Args[0]
	}
	return nil
}

// getOf gives the key of value get(sn, key)#0.
func getOf(v *Term) *Term {
	if v != nil && v.Op == "ext" && v.Sym == "0" && v.Args[0].Op == "get" {
		return v.Args[0].Args[1]
	}
	return nil
}

// storedNum gives the key under which the number value v was read: v == unbe64(get(sn,key)).
func storedNum(v *Term) *Term {
	if v != nil && v.Op == "unbe64" {
		return getOf(v.Args[0])
	}
	return nil
}

// numOfID gives the block ID whose number v is.
func numOfID(v *Term) *Term { return idKey(storedNum(v), 1) }

// decodedAt gives the number n and record for a value decoded from prefix+be64(n).
func decodedAt(v *Term, prefix int64) *Term {
	if v == nil || v.Op != "decoded" {
		return nil
	}
	return numKey(getOf(v.Args[0]), prefix)
}

// tagged returns the value of the field that carries a CBOR integer tag.
func tagged(st *Term, tag int) *Term {
	if st == nil || st.Typ == nil {
		return nil
	}
	su, ok := deref(st.Typ).Underlying().(*types.Struct)
	if !ok || (st.Op == "struct" && len(st.Args) != su.NumFields()) {
		return nil
	}
	i := tagIndex(su, tag)
	if i < 0 {
		return nil
	}
	if st.Op == "struct" {
		return st.Args[i]
	}
	return nil
}

func tagIndex(su *types.Struct, tag int) int {
	for i := 0; i < su.NumFields(); i++ {
		v := reflect.StructTag(su.Tag(i)).Get("cbor")
		if v == fmt.Sprintf("%d,keyasint", tag) {
			return i
		}
	}
	return -1
}

// fieldTag tells which tag a field projection refers to: v == field(rec).
func fieldTag(v *Term) (rec *Term, tag int, ok bool) {
	if v == nil || v.Op != "field" || v.Args[0].Typ == nil {
		return nil, 0, false
	}
	su, isS := v.Args[0].Typ.Underlying().(*types.Struct)
	if !isS {
		return nil, 0, false
	}
	for i := 0; i < su.NumFields(); i++ {
		if su.Field(i).Name() == v.Sym {
			t := reflect.StructTag(su.Tag(i)).Get("cbor")
			var n int
			if _, err := fmt.Sscanf(t, "%d,keyasint", &n); err == nil {
				return v.Args[0], n, true
			}
		}
	}
	return nil, 0, false
}

func bigConst(t *Term, dec string) bool {
	return t.isConst() && t.Cval.Kind() == constant.Int && t.Cval.ExactString() == dec
}

// ---- database writes ----

type dbOp struct {
	del  bool
	key  *Term
	val  *Term
	ev   *Event
	loop bool
}

type dbWrite struct {
	batch *Term
	ops   []dbOp
	ev    *Event // the write
	pos   int
	loop  bool
}

// dbWrites lists the writes issued on a path, in order, with the operations in their batches. Batches that are
// never written are returned separately.
func dbWrites(p *Path) (writes []dbWrite, pending map[*Term][]dbOp) {
	pending = map[*Term][]dbOp{}
	var rec func(p *Path, loop bool)
	pos := 0
	rec = func(p *Path, loop bool) {
		for _, ev := range p.Events {
			pos++
			switch {
			case isCall(ev, "(*leveldb.Batch).Put"):
				pending[ev.Args[0]] = append(pending[ev.Args[0]], dbOp{key: ev.Args[1], val: ev.Args[2], ev: ev, loop: loop})
			case isCall(ev, "(*leveldb.Batch).Delete"):
				pending[ev.Args[0]] = append(pending[ev.Args[0]], dbOp{del: true, key: ev.Args[1], ev: ev, loop: loop})
			case isCall(ev, "(*leveldb.Batch).Reset"):
				delete(pending, ev.Args[0])
			case isCall(ev, "(*leveldb.DB).Write"):
				b := ev.Args[1]
				writes = append(writes, dbWrite{batch: b, ops: pending[b], ev: ev, pos: pos, loop: loop})
				delete(pending, b)
			case isCall(ev, "(*leveldb.DB).Put"):
				writes = append(writes, dbWrite{ops: []dbOp{{key: ev.Args[1], val: ev.Args[2], ev: ev, loop: loop}}, ev: ev, pos: pos, loop: loop})
			case isCall(ev, "(*leveldb.DB).Delete"):
				writes = append(writes, dbWrite{ops: []dbOp{{del: true, key: ev.Args[1], ev: ev, loop: loop}}, ev: ev, pos: pos, loop: loop})
			case ev.Kind == "loop":
				for _, b := range ev.Loop.Bodies {
					rec(b, true)
				}
			}
		}
	}
	rec(p, false)
	return
}

// ---- decision tables ----

type valuation func(t *Term) (int64, bool)

func (e *Engine) evalNum(t *Term, v valuation) (int64, bool) {
	if n, ok := v(t); ok {
		return n, true
	}
	if n, ok := t.int64(); ok {
		return n, true
	}
	switch t.Op {
	case "neg":
		n, ok := e.evalNum(t.Args[0], v)
		return -n, ok
	case "conv", "narrow":
		return e.evalNum(t.Args[0], v)
	case "bin":
		a, ok1 := e.evalNum(t.Args[0], v)
		b, ok2 := e.evalNum(t.Args[1], v)
		if ok1 && ok2 {
			switch t.Sym {
			case "+":
				return a + b, true
			case "-":
				return a - b, true
			case "*":
				return a * b, true
			case "%":
				if b != 0 {
					return a % b, true
				}
			}
		}
	case "cmp":
		a, ok1 := e.evalNum(t.Args[0], v)
		b, ok2 := e.evalNum(t.Args[1], v)
		if ok1 && ok2 {
			switch {
			case a < b:
				return -1, true
			case a > b:
				return 1, true
			}
			return 0, true
		}
	case "minmax":
		if len(t.Args) == 2 {
			a, ok1 := e.evalNum(t.Args[0], v)
			b, ok2 := e.evalNum(t.Args[1], v)
			if ok1 && ok2 {
				if (a < b) == (t.Sym == "min") {
					return a, true
				}
				return b, true
			}
		}
	}
	return 0, false
}

func (e *Engine) evalBool(t *Term, v valuation) (bool, bool) {
	if b, ok := t.boolVal(); ok {
		return b, true
	}
	if n, ok := v(t); ok {
		return n != 0, true
	}
	switch t.Op {
	case "not":
		b, ok := e.evalBool(t.Args[0], v)
		return !b, ok
	case "eq", "lt":
		a, ok1 := e.evalNum(t.Args[0], v)
		b, ok2 := e.evalNum(t.Args[1], v)
		if ok1 && ok2 {
			if t.Op == "eq" {
				return a == b, true
			}
			return a < b, true
		}
	}
	return false, false
}

// feasible reports whether no fact of the list contradicts the valuation.
func (e *Engine) feasible(facts []Fact, v valuation) bool {
	for _, f := range facts {
		if b, ok := e.evalBool(f.Atom, v); ok && b != f.Val {
			return false
		}
	}
	return true
}

// loopVar is a quantity carried from one iteration of a loop to the next: an SSA phi or a memory cell.
type loopVar struct {
	cur  *Term // value at the start of an iteration
	init *Term
	next []*Term // value at the end, per body path
	name string
	addr *Term // for memory cells
}

func loopVars(e *Engine, ev *Event) []loopVar {
	li := ev.Loop
	var r []loopVar
	for _, ph := range li.Phis {
		r = append(r, loopVar{cur: ph.Term, init: ph.Init, next: ph.Backs, name: ph.Name})
	}
	for _, a := range li.Mod {
		lv := loopVar{cur: e.havoc(li.ID, a), init: li.Before[a], addr: a, name: a.String()}
		for _, b := range li.Bodies {
			v := b.St.mem[a]
			if v == nil {
				v = lv.cur
			}
			lv.next = append(lv.next, v)
		}
		r = append(r, lv)
	}
	return r
}

// bodyFacts are the facts established inside one iteration.
func (p *Path) own() []Fact {
	if p.Base <= len(p.Facts) {
		return p.Facts[p.Base:]
	}
	return nil
}

func (p *Program) namedType(pkg, name string) types.Type {
	s := p.ssa[pkg]
	if s == nil {
		return nil
	}
	o := s.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func sameFn(a, b *ssa.Function) bool { return a != nil && a == b }

// isNamed reports whether a type (or what it points to) is pkg.name.
func isNamed(t types.Type, pkg, name string) bool {
	if t == nil {
		return false
	}
	n, ok := types.Unalias(deref(t)).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Name() == roleName(pkg, name) && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == pkg
}

func isByte(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
