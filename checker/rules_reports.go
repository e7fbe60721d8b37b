package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Reports about stored chains: the longest fork, last common blocks, fork lists, active heads, statistics.

const lcaName = "(*chains.storage).lca"

func lcaOpaque(fn *ssa.Function, name string) bool { return name == lcaName }

func (c *Ctx) reportPaths(name string) (*ssa.Function, []*Path, *Engine) {
	fn := c.root("chains", "Linkage", name)
	if fn == nil {
		return nil, nil, nil
	}
	ps, e := c.paths(fn, opts{key: "lca", noInline: lcaOpaque})
	return fn, ps, e
}

// ---- references to list elements ----

// elemField splits a reference to field f of list[idx].
func elemField(t *Term) (list, idx *Term, f string, ok bool) {
	t = strip(t)
	if t == nil {
		return
	}
	var b *Term
	switch {
	case t.Op == "field":
		b = t.Args[0]
		f = t.Sym
		if b.Op == "load" {
			b = b.Args[0]
		}
	case t.Op == "load" && t.Args[0].Op == "faddr":
		b = t.Args[0].Args[0]
		f = t.Args[0].Sym
	default:
		return
	}
	if b.Op == "index" || b.Op == "iaddr" {
		return b.Args[0], b.Args[1], f, true
	}
	return
}

// fieldIdx finds a field of a struct type by name.
func fieldIdx(T types.Type, name string) int {
	if T == nil {
		return -1
	}
	su, ok := T.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < su.NumFields(); i++ {
		if su.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// structField gives the value of a named field of a struct term.
func structField(t *Term, name string) *Term {
	if t == nil || t.Op != "struct" {
		return nil
	}
	i := fieldIdx(t.Typ, name)
	if i < 0 || i >= len(t.Args) {
		return nil
	}
	return t.Args[i]
}

// simplify projects fields out of struct terms after substitution.
func (e *Engine) simplify(t *Term) *Term {
	if t == nil || len(t.Args) == 0 {
		return t
	}
	ch := false
	as := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		as[i] = e.simplify(a)
		ch = ch || as[i] != a
	}
	if t.Op == "field" && as[0].Op == "struct" {
		if v := structField(as[0], t.Sym); v != nil {
			return v
		}
	}
	if !ch {
		return t
	}
	r := e.tt.mk(t.Op, t.Sym, t.Typ, as...)
	if r.Obj == nil {
		r.Obj = t.Obj
	}
	return r
}

// ---- iteration over stored records ----

// iterOf gives the iterator of an iterator position Key/Value.
func iterPos(t *Term, what string) *Term {
	t = unface(t)
	if callName(t) == "(iterator.Iterator)."+what || callName(t) == "(iterator.CommonIterator)."+what {
		return t.Args[0]
	}
	return nil
}

// leashAddr recognises the address held in the key of the current leash record.
func leashAddr(t *Term) *Term {
	t = strip(t)
	if t != nil && t.Op == "ext" && t.Sym == "0" && callName(t.Args[0]) == "netip.AddrFromSlice" {
		s := t.Args[0].Args[0]
		if s.Op == "slice" {
			if n, ok := s.Args[1].int64(); ok && n == 1 && s.Args[2].Op == "nil" {
				return iterPos(s.Args[0], "Key")
			}
		}
	}
	return nil
}

func leashID(t *Term) *Term {
	t = strip(t)
	if t != nil && t.Op == "ext" && t.Sym == "0" && callName(t.Args[0]) == "proto.NewBlockIDFromBytes" {
		return iterPos(t.Args[0].Args[0], "Value")
	}
	return nil
}

// loopOf finds the loop in which a loop-carried term lives, on the path or in the path that contains it.
func loopOfPhi(p *Path, t *Term) (*Event, *LoopPhi) {
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		for _, ph := range ev.Loop.Phis {
			if ph.Term == t {
				return ev, ph
			}
		}
		// a variable kept in memory, such as one a function literal uses
		if t.Op == "havoc" && t.Sym == ev.Loop.ID {
			for _, a := range ev.Loop.Mod {
				if a != t.Args[0] {
					continue
				}
				ph := &LoopPhi{Term: t, Init: ev.Loop.Before[a]}
				for _, b := range ev.Loop.Bodies {
					v := b.St.mem[a]
					if v == nil {
						v = t
					}
					ph.Backs = append(ph.Backs, v)
				}
				return ev, ph
			}
		}
	}
	return nil, nil
}

// exhausted reports whether the facts after a loop over list (by index), map or iterator say that it ran to the end.
func exhausted(e *Engine, p *Path, loop *Event, over *Term) bool {
	for _, f := range p.Facts[min(loop.NFacts, len(p.Facts)):] {
		a := f.Atom
		if f.Val {
			continue
		}
		switch {
		case a.Op == "lt" && a.Args[0].is("iter", loop.Loop.ID) && a.Args[1].Op == "len" && a.Args[1].Args[0] == over:
			return true
		case a.Op == "more" && a.Args[0].Op == "range" && a.Args[0].Args[0] == over:
			return true
		case strings.HasSuffix(callName(a), ").Valid") && a.Args[0] == over:
			return stepsThrough(p, loop, over, false)
		case strings.HasSuffix(callName(a), ").Next") && a.Args[0] == over:
			return stepsThrough(p, loop, over, true)
		}
	}
	return false
}

// stepsThrough: the iterator starts with the first record and is moved to the next one once in every round.
func stepsThrough(p *Path, loop *Event, it *Term, byNext bool) bool {
	moves := func(evs []*Event, to *Event) (r []string) {
		for _, ev := range evs {
			if ev == to {
				break
			}
			if ev.Kind != "call" || len(ev.Args) == 0 || unface(ev.Args[0]) != unface(it) {
				continue
			}
			switch m := ev.Fn[strings.LastIndex(ev.Fn, ".")+1:]; m {
			case "First", "Next", "Last", "Prev", "Seek":
				r = append(r, m)
			}
		}
		return r
	}
	before := strings.Join(moves(p.Events, loop), " ")
	step := "Next"
	switch {
	case byNext && before != "", !byNext && before != "First" && before != "Next" && before != "Last":
		return false
	case before == "Last":
		step = "Prev"
	}
	for _, b := range loop.Loop.Bodies {
		if b.Kind == "back" && strings.Join(moves(b.Events, nil), " ") != step {
			return false
		}
	}
	return true
}

// iterRange checks that an iterator covers every record with the given key prefix.
func (c *Ctx) iterRange(e *Engine, p *Path, it *Term, prefix int64) bool {
	for _, ev := range p.Events {
		if isCallSuffix(ev, ").NewIterator") && ev.Res == it {
			r := unface(ev.Args[1])
			if callName(r) == "util.BytesPrefix" {
				k := r.Args[0]
				pf, rest, ok := keyOf(k)
				return ok && pf == prefix && len(rest) == 0 || isBytePrefix(k, prefix)
			}
			lo, hi, ok := rangeOf(e, p, ev)
			if !ok {
				return false
			}
			return lowKey(lo, prefix) && highKey(hi, prefix)
		}
	}
	return false
}

func isBytePrefix(k *Term, prefix int64) bool {
	if k != nil && k.Op == "byte" {
		n, ok := k.Args[0].int64()
		return ok && n == prefix
	}
	return false
}

func lowKey(k *Term, prefix int64) bool {
	if isBytePrefix(k, prefix) {
		return true
	}
	pf, rest, ok := keyOf(k)
	if !ok || pf != prefix {
		return false
	}
	for _, r := range rest {
		if !zeroBytes(r, prefix) {
			return false
		}
	}
	return true
}

func zeroBytes(r *Term, prefix int64) bool {
	switch {
	case r.Op == "be64":
		n, ok := r.Args[0].int64()
		return ok && (n == 0 || n == 1 && prefix == 4) // heads are numbered from one
	case r.Op == "byte":
		n, ok := r.Args[0].int64()
		return ok && n == 0
	case r.Op == "zeros", r.Op == "zero":
		return true
	case r.is("call", "(netip.Addr).AsSlice"):
		a := r.Args[0]
		if callName(a) == "netip.AddrFrom4" || callName(a) == "netip.AddrFrom16" {
			return allBytes(a.Args[0], 0)
		}
		return callName(a) == "netip.IPv4Unspecified"
	}
	return false
}

func allBytes(t *Term, want int64) bool {
	t = strip(t)
	if t == nil {
		return false
	}
	switch t.Op {
	case "zero", "zeros":
		return want == 0
	case "array", "cat", "struct":
		for _, a := range t.Args {
			a = strip(a)
			if a.Op == "byte" {
				a = a.Args[0]
			}
			if n, ok := a.int64(); !ok || n != want {
				return false
			}
		}
		return len(t.Args) > 0
	case "const":
		return false
	}
	return false
}

func highKey(k *Term, prefix int64) bool {
	if isBytePrefix(k, prefix+1) {
		return true
	}
	pf, rest, ok := keyOf(k)
	if !ok {
		return false
	}
	if pf == prefix+1 {
		return lowKey(k, prefix+1)
	}
	if pf != prefix || len(rest) == 0 {
		return false
	}
	for _, r := range rest {
		switch {
		case r.Op == "be64":
			if !isMax64(r.Args[0]) {
				return false
			}
		case r.Op == "byte":
			if n, ok := r.Args[0].int64(); !ok || n != 255 {
				return false
			}
		case r.is("call", "(netip.Addr).AsSlice"):
			if callName(r.Args[0]) != "netip.AddrFrom16" || !allBytes(r.Args[0].Args[0], 255) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// leashSource tells whether t is the address ("addr") or block ("id") of a leash record that is visited by the loop
// ev of path p, all records being visited.
func (c *Ctx) leashSource(e *Engine, p *Path, ev *Event, t *Term) (kind string, over *Term) {
	if it := leashAddr(t); it != nil {
		return "addr", it
	}
	if it := leashID(t); it != nil {
		return "id", it
	}
	list, idx, f, ok := elemField(t)
	if !ok || !idx.is("iter", ev.Loop.ID) {
		return "", nil
	}
	src, ph := loopOfPhi(p, list)
	if src == nil {
		return "", nil
	}
	var it *Term
	for _, b := range ph.Backs {
		if b.Op != "append" || len(b.Args) != 2 || b.Args[0] != list {
			return "", nil
		}
		v := structField(b.Args[1], f)
		k := ""
		if x := leashAddr(v); x != nil {
			k, it = "addr", x
		} else if x := leashID(v); x != nil {
			k, it = "id", x
		}
		if k == "" || kind != "" && kind != k {
			return "", nil
		}
		kind = k
	}
	if ph.Init == nil || !emptySlice(ph.Init) || it == nil || !exhausted(e, p, src, it) || !c.iterRange(e, p, it, 3) {
		return "", nil
	}
	return kind, list
}

// grouping is a table from leashed blocks to the peers leashed to them.
type grouping struct {
	m      *Term
	counts bool // holds numbers of peers rather than lists
	loop   *Event
}

// groupings finds the complete tables of leashes on a path. filter evaluates whether a leash of the given address
// must be included under the facts of a body (nil: always).
func (c *Ctx) groupings(e *Engine, p *Path, name string, must func(facts []Fact, addr *Term) (include, known bool)) map[*Term]*grouping {
	r := map[*Term]*grouping{}
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		maps := map[*Term]*Event{}
		for _, b := range ev.Loop.Bodies {
			for _, x := range b.Events {
				if x.Kind == "mapset" && isNamedKey(x.Args[1]) {
					maps[x.Args[0]] = x
				}
			}
		}
		for m, first := range maps {
			g := &grouping{m: m, loop: ev}
			why := ""
			var over *Term
			for _, b := range ev.Loop.Bodies {
				n := 0
				var addr *Term
				for _, x := range b.Events {
					if x.Kind != "mapset" || x.Args[0] != m {
						continue
					}
					n++
					k, ov := c.leashSource(e, p, ev, x.Args[1])
					if k != "id" {
						why = "the table is not keyed by the blocks of all leashes"
						continue
					}
					over = ov
					v := x.Args[2]
					switch {
					case v.Op == "append" && len(v.Args) == 2 && isLookup(v.Args[0], m, x.Args[1]):
						if k2, _ := c.leashSource(e, p, ev, v.Args[1]); k2 != "addr" {
							why = "the table does not collect the leashed peers"
						}
						addr = v.Args[1]
					case v.Op == "bin" && v.Sym == "+" && isLookup(v.Args[0], m, x.Args[1]):
						if k, ok := v.Args[1].int64(); !ok || k != 1 {
							why = "leashes are counted wrong"
						}
						g.counts = true
					default:
						why = "an earlier leash to the same block is overwritten"
					}
				}
				inc, known := true, true
				if must != nil {
					inc, known = must(b.own(), addr)
				}
				if n > 1 {
					why = "a leash is entered twice"
				}
				if why == "" && n == 0 && (inc || !known) {
					why = "a leash can be skipped"
				}
				if why == "" && n == 1 && (!inc || !known) {
					why = "a leash of a peer that was not asked for is included"
				}
			}
			if why == "" && (over == nil || !exhausted(e, p, ev, over)) {
				why = "not all leashes are visited"
			}
			if c.check(why == "", "all-leashes", name, first.Pos, p, "the table of leashes is incomplete or wrong: %s", why) {
				r[m] = g
			}
		}
	}
	return r
}

func isNamedKey(t *Term) bool {
	return t != nil && isNamed(t.Typ, "proto", "BlockID")
}

func isLookup(t, m, k *Term) bool {
	return t != nil && t.Op == "lookup" && t.Args[0] == m && t.Args[1] == k
}

// blockField recognises a field of the stored record of a block and gives the block's ID.
func blockField(t *Term, tag int) *Term {
	t = strip(t)
	if t == nil {
		return nil
	}
	if t.Op == "ext" && t.Sym == "0" {
		switch callName(t.Args[0]) {
		case "proto.NewBlockIDFromBytes", "proto.NewAddressFromBytes":
			t = strip(t.Args[0].Args[0])
		}
	}
	rec, tg, ok := fieldTag(t)
	if !ok || tg != tag {
		return nil
	}
	return numOfID(decodedAt(rec, 1))
}

// isBlock recognises a block ID or the ID read from that block's own record.
func isBlock(t, id *Term) bool { return t != nil && (t == id || blockField(t, 3) == id) }

// blockTime recognises the (possibly clamped) timestamp of a block.
func blockTime(t *Term, id *Term, facts []Fact) bool {
	t = strip(t)
	if t == nil {
		return false
	}
	if blockField(t, 1) == id {
		return true
	}
	if t.Op == "minmax" && t.Sym == "min" {
		return blockField(t.Args[0], 1) == id || blockField(t.Args[1], 1) == id
	}
	if n, ok := t.int64(); ok && n > 4102444800000 {
		for _, f := range facts {
			if f.Atom.Op == "lt" && (blockField(f.Atom.Args[0], 1) == id && !f.Val || blockField(f.Atom.Args[1], 1) == id && f.Val) {
				return true
			}
		}
	}
	return false
}

// ---- the longest fork ----

// next gives the value a loop-carried expression has after a body.
func (e *Engine) next(vars []loopVar, body int, t *Term) *Term {
	m := map[*Term]*Term{}
	for _, v := range vars {
		if body < len(v.next) && v.next[body] != v.cur {
			m[v.cur] = v.next[body]
		}
	}
	return e.simplify(e.subst(t, m))
}

// longestBySelection checks that t is the block selected by a loop over a table of leashes: greatest score, then most
// peers. It returns a reason when it is not.
func (c *Ctx) longestBySelection(e *Engine, p *Path, gs map[*Term]*grouping, t *Term) string {
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		vars := loopVars(e, ev)
		var carried *loopVar
		for i := range vars {
			if t.contains(vars[i].cur) {
				carried = &vars[i]
			}
		}
		if carried == nil {
			continue
		}
		// the table the loop ranges over
		var m, key, val *Term
		for _, b := range ev.Loop.Bodies {
			for _, f := range b.own() {
				if f.Atom.Op == "more" && f.Val {
					m = f.Atom.Args[0].Args[0]
					key = e.tt.mk("mapkey", f.Atom.Sym, nil, m)
					val = e.tt.mk("mapval", f.Atom.Sym, nil, m)
				}
			}
		}
		g := gs[m]
		if m == nil || g == nil {
			return "the selection does not range over a complete table of leashes"
		}
		if !exhausted(e, p, ev, m) {
			return "the selection does not look at all leashed blocks"
		}
		isSize := func(x *Term) bool {
			x = strip(x)
			if x == val && g.counts {
				return true
			}
			return x.Op == "len" && x.Args[0] == val
		}
		isScore := func(x *Term) bool { return blockField(x, 2) == key }
		isCarried := func(x *Term) bool {
			for _, v := range vars {
				if x.contains(v.cur) {
					return true
				}
			}
			return false
		}
		var S, N *Term
		for _, b := range ev.Loop.Bodies {
			for _, f := range b.own() {
				f.Atom.any(func(x *Term) bool {
					if x.is("cmp", "big") {
						for i := 0; i < 2; i++ {
							if isScore(x.Args[i]) && isCarried(x.Args[1-i]) {
								S = x.Args[1-i]
							}
						}
					}
					if x.Op == "lt" || x.Op == "eq" || x.Op == "cmp" && x.Sym != "big" {
						for i := 0; i < 2; i++ {
							if isSize(x.Args[i]) && isCarried(x.Args[1-i]) {
								N = x.Args[1-i]
							}
						}
					}
					return false
				})
			}
		}
		if S == nil {
			return "the scores of the leashed blocks are not compared"
		}
		if N == nil {
			return "the numbers of leashed peers are not compared"
		}
		initOf := func(x *Term) *Term {
			mm := map[*Term]*Term{}
			for _, v := range vars {
				if v.init != nil {
					mm[v.cur] = v.init
				}
			}
			return e.simplify(e.subst(x, mm))
		}
		emptyRefused := func(x *Term, first bool) (int64, bool) {
			// comparisons of a carried value with its initial (unset) value
			if x.Op == "eq" && isCarried(x.Args[0]) {
				z := x.Args[1]
				if z.Op == "nil" || z.Op == "zero" || z.isConst() && initOf(x.Args[0]) == z {
					if first {
						return 1, true
					}
					return 0, true
				}
			}
			return 0, false
		}
		for _, cs := range []int64{-1, 0, 1} { // candidate against current
			for _, cn := range []int64{-1, 0, 1} {
				v := func(x *Term) (int64, bool) {
					if n, ok := emptyRefused(x, false); ok {
						return n, true
					}
					if x.is("cmp", "big") {
						if x.Args[0] == S && isScore(x.Args[1]) {
							return -cs, true
						}
						if x.Args[1] == S && isScore(x.Args[0]) {
							return cs, true
						}
					}
					if x == N {
						return 5, true
					}
					if isSize(x) {
						return 5 + cn, true
					}
					return 0, false
				}
				for bi, b := range ev.Loop.Bodies {
					if !e.feasible(b.own(), v) {
						continue
					}
					nt, ns, nn := e.next(vars, bi, t), e.next(vars, bi, S), e.next(vars, bi, N)
					taken, kept := isBlock(nt, key), nt == t
					better := cs > 0 || cs == 0 && cn > 0
					worse := cs < 0 || cs == 0 && cn < 0
					switch {
					case !taken && !kept:
						return "the selected block is replaced by " + nt.String()
					case better && !taken:
						return "a better block is passed over"
					case worse && !kept:
						return "a worse block replaces a better one"
					}
					if cs != 0 && (taken && !isScore(ns) || kept && ns != S) {
						return "the remembered score is not that of the selected block"
					}
					if cn != 0 || cs != 0 {
						sizeOK := isSize(nn) || nn.Op == "len" && nn.Args[0].Op == "lookup" && nn.Args[0].Args[0] == m && isBlock(nn.Args[0].Args[1], key)
						if taken && !sizeOK || kept && nn != N {
							return "the remembered number of peers is not that of the selected block"
						}
					}
				}
			}
		}
		// the first block is always taken
		is := initOf(S)
		zeroInit := false
		if is.Op == "bigalloc" {
			if v, ok := p.St.mem[e.bigCell(is)]; ok {
				n, isN := v.int64()
				zeroInit = isN && n <= 0
			}
		}
		if n, ok := is.int64(); ok && n <= 0 {
			zeroInit = true
		}
		if !zeroInit {
			for bi, b := range ev.Loop.Bodies {
				v := func(x *Term) (int64, bool) { return emptyRefused(x, true) }
				if e.feasible(b.own(), v) && !isBlock(e.next(vars, bi, t), key) {
					return "the first leashed block is not always selected"
				}
			}
			if is.Op != "nil" && is.Op != "zero" {
				return "the selection starts from " + is.String()
			}
		}
		return ""
	}
	return "it is not selected by looking at all leashes"
}

// forkList is a list of fork reports built from a table of leashes.
type forkList struct {
	list    *Term
	g       *grouping
	T       types.Type
	key     *Term
	val     *Term
	initLen bool // every fork starts with the height of its head as its length
}

// forkListOf recognises a list in which every entry of a complete table of leashes has one element whose fields are
// those of the leashed block, and checks them.
func (c *Ctx) forkListOf(e *Engine, p *Path, gs map[*Term]*grouping, list *Term, name string) *forkList {
	ev, ph := loopOfPhi(p, list)
	if ev == nil || ph.Init == nil || !emptyList(ph.Init) {
		return nil
	}
	var r *forkList
	for bi, b := range ev.Loop.Bodies {
		var m, key, val *Term
		for _, f := range b.own() {
			if f.Atom.Op == "more" && f.Val {
				m = f.Atom.Args[0].Args[0]
				key = e.tt.mk("mapkey", f.Atom.Sym, nil, m)
				val = e.tt.mk("mapval", f.Atom.Sym, nil, m)
			}
		}
		if m == nil || gs[m] == nil || !exhausted(e, p, ev, m) {
			return nil
		}
		x := ph.Backs[bi]
		if x.Op != "append" || len(x.Args) != 2 || x.Args[0] != list {
			c.check(false, "fork-per-block", name, ev.Pos, p, "a leashed block has no fork in the report or more than one")
			return nil
		}
		c.ok("fork-per-block")
		s := x.Args[1]
		if s.Op != "struct" {
			return nil
		}
		initLen, _ := c.forkFields(s, key, val, b.Facts, ev, p, name)
		r = &forkList{list: list, g: gs[m], T: s.Typ, key: key, val: val, initLen: initLen && (r == nil || r.initLen)}
	}
	return r
}

func emptyList(t *Term) bool {
	if emptySlice(t) {
		return true
	}
	if t.Op == "mkslice" {
		n, ok := t.Args[0].int64()
		return ok && n == 0
	}
	return false
}

// forkFields checks the initial contents of a fork report. It tells whether its length starts as the height of the head
// and its last common block as the head.
func (c *Ctx) forkFields(s, key, val *Term, facts []Fact, ev *Event, p *Path, name string) (initLen, initLCB bool) {
	f := func(n string) *Term { return structField(s, n) }
	c.check(isBlock(f("HeadBlock"), key), "fork-head", name, ev.Pos, p, "the head of the fork is %v", f("HeadBlock"))
	c.check(blockField(f("HeadHeight"), 0) == key, "fork-height", name, ev.Pos, p, "the height of the fork is %v", f("HeadHeight"))
	ts := f("HeadTimestamp")
	c.check(callName(ts) == "time.UnixMilli" && blockTime(ts.Args[0], key, facts), "fork-timestamp", name, ev.Pos, p, "the timestamp of the fork is %v", ts)
	c.check(blockField(f("HeadGenerator"), 5) == key, "fork-generator", name, ev.Pos, p, "the generator of the fork is %v", f("HeadGenerator"))
	c.check(blockField(f("Score"), 2) == key, "fork-score", name, ev.Pos, p, "the score of the fork is %v", f("Score"))
	c.check(f("Peers") == val, "fork-peers", name, ev.Pos, p, "the peers of the fork are %v", f("Peers"))
	n := strip(f("PeersCount"))
	c.check(n != nil && n.Op == "len" && n.Args[0] == val, "fork-peers-count", name, ev.Pos, p, "the number of peers of the fork is %v", n)
	lg, isB := f("Longest").boolVal()
	c.check(isB && !lg, "fork-longest", name, ev.Pos, p, "every fork starts as the longest")
	return blockField(f("Length"), 0) == key, isBlock(f("LastCommonBlock"), key)
}

// sortEvents lists the sorts on a path.
func sortEvents(p *Path) []*Event {
	var r []*Event
	for _, ev := range p.Events {
		if ev.Kind == "call" && isSort(ev.Fn) {
			r = append(r, ev)
		}
	}
	return r
}

// comparator finds the ordering function of a sort. why is a defect of the sorted collection's other methods.
func (c *Ctx) comparator(e *Engine, ev *Event) (fn *ssa.Function, threeWay bool, why string) {
	switch ev.Fn {
	case "sort.Sort", "sort.Stable":
		x := ev.Args[0]
		if x.Op != "iface" || x.Typ == nil {
			return nil, false, ""
		}
		method := func(name string) *ssa.Function {
			ms := c.p.prog.MethodSets.MethodSet(x.Typ)
			for i := 0; i < ms.Len(); i++ {
				if s := ms.At(i); s.Obj().Name() == name {
					return c.p.prog.MethodValue(s)
				}
			}
			return nil
		}
		if f := method("Len"); f != nil {
			ps, fe := c.paths(f)
			for _, p := range ps {
				if p.Kind == "return" && !(p.ret(0).Op == "len" && p.ret(0).Args[0] == fe.paramTerm(f, 0, f.Params[0])) {
					why = "the sorted collection reports a wrong length"
				}
			}
		}
		if f := method("Swap"); f != nil {
			ps, fe := c.paths(f)
			for _, p := range ps {
				if p.Kind != "return" {
					continue
				}
				l, i, j := fe.paramTerm(f, 0, f.Params[0]), fe.paramTerm(f, 1, f.Params[1]), fe.paramTerm(f, 2, f.Params[2])
				got := map[*Term]*Term{}
				for _, ev := range p.Events {
					if ev.Kind == "store" && ev.Args[0].Op == "iaddr" && ev.Args[0].Args[0] == l {
						got[ev.Args[0].Args[1]] = ev.Args[1]
					}
				}
				is := func(k, v *Term) bool { g := got[k]; return g != nil && isElemAt(g, l, v) }
				if len(got) != 2 || !is(i, j) || !is(j, i) {
					why = "the sorted collection does not swap its elements"
				}
			}
		}
		return method("Less"), false, why
	case "sort.Slice", "sort.SliceStable":
		f, _ := e.resolve(ev.Args[1])
		return f, false, ""
	case "slices.SortFunc", "slices.SortStableFunc":
		f, _ := e.resolve(ev.Args[1])
		return f, true, ""
	}
	return nil, false, ""
}

func isElemAt(t, list, idx *Term) bool {
	if t.Op == "load" {
		t = t.Args[0]
	}
	return (t.Op == "index" || t.Op == "iaddr") && t.Args[0] == list && t.Args[1] == idx
}

// sortedBy checks a sort against an ordering.
func (c *Ctx) sortedBy(e *Engine, ev *Event, keys []orderKey) string {
	fn, tw, why := c.comparator(e, ev)
	if why != "" {
		return why
	}
	return c.verifyDesc(fn, tw, keys)
}

// orderKey is one criterion of an ordering: a recogniser of the quantity of one side.
type orderKey struct {
	what string
	is   func(t *Term) bool
	big  bool
}

// verifyDesc checks that a comparator orders by the given criteria, each descending, the first that differs deciding.
func (c *Ctx) verifyDesc(fn *ssa.Function, threeWay bool, keys []orderKey) string {
	if fn == nil || len(fn.Params) < 2 {
		return "the ordering cannot be found"
	}
	paths, e := c.paths(fn)
	pa, pb := fn.Params[len(fn.Params)-2], fn.Params[len(fn.Params)-1]
	ta, tb := e.paramTerm(fn, len(fn.Params)-2, pa), e.paramTerm(fn, len(fn.Params)-1, pb)
	side := func(t *Term) int {
		a, b := t.contains(ta), t.contains(tb)
		switch {
		case a && !b:
			return 1
		case b && !a:
			return 2
		}
		return 0
	}
	n := 1
	for range keys {
		n *= 3
	}
	for combo := 0; combo < n; combo++ {
		d := make([]int64, len(keys)) // first operand against second
		x := combo
		want := int64(0)
		for i := range keys {
			d[i] = int64(x%3) - 1
			x /= 3
			if want == 0 {
				want = d[i]
			}
		}
		v := func(t *Term) (int64, bool) {
			if t.Op == "cmp" {
				for i, k := range keys {
					if k.big && k.is(t.Args[0]) && k.is(t.Args[1]) {
						switch sa, sb := side(t.Args[0]), side(t.Args[1]); {
						case sa == 1 && sb == 2:
							return d[i], true
						case sa == 2 && sb == 1:
							return -d[i], true
						}
					}
				}
			}
			for i, k := range keys {
				if !k.big && k.is(t) {
					switch side(t) {
					case 1:
						return 5 + d[i], true
					case 2:
						return 5, true
					}
				}
			}
			return 0, false
		}
		for _, p := range paths {
			if p.Kind != "return" || !e.feasible(p.Facts, v) {
				continue
			}
			r := p.ret(0)
			if threeWay {
				got, ok := e.evalNum(r, v)
				if !ok {
					return "the result " + r.String() + " does not depend on the score and the number of peers only"
				}
				if got > 0 && want >= 0 || got < 0 && want <= 0 || got == 0 && want != 0 {
					return "the order is not descending by " + keys[0].what
				}
				continue
			}
			got, ok := e.evalBool(r, v)
			if !ok {
				return "the result " + r.String() + " is not decided by " + keys[0].what
			}
			if got != (want > 0) {
				return "the order is not descending by " + keys[0].what
			}
		}
	}
	return ""
}

func forkOrder() []orderKey {
	return []orderKey{
		{what: "score and number of peers", big: true, is: func(t *Term) bool { return endsWithField(t, "Score") }},
		{what: "number of peers", is: func(t *Term) bool {
			t = strip(t)
			return t.Op == "len" && endsWithField(t.Args[0], "Peers") || endsWithField(t, "PeersCount")
		}},
	}
}

func endsWithField(t *Term, f string) bool {
	t = strip(t)
	if t == nil {
		return false
	}
	if t.Op == "field" {
		return t.Sym == f
	}
	return t.Op == "load" && t.Args[0].Op == "faddr" && t.Args[0].Sym == f
}

// ofFork: t is the given field of the fork at the given place of the list.
func ofFork(t *Term, field string, isList func(l *Term) bool, at *Term) bool {
	t = strip(t)
	var a *Term
	switch {
	case t == nil:
		return false
	case t.Op == "havoc" && t.Args[0].Op == "faddr":
		a = t.Args[0]
	case t.Op == "load" && t.Args[0].Op == "faddr":
		a = t.Args[0]
	default:
		l, i, f, ok := elemField(t)
		return ok && f == field && isList(l) && i == at
	}
	x := a.Args[0]
	return a.Sym == field && (x.Op == "iaddr" || x.Op == "index") && isList(x.Args[0]) && x.Args[1] == at
}

// longestBySort checks that t is the head of the first element of a list of forks sorted by score and peers.
func (c *Ctx) longestBySort(e *Engine, p *Path, gs map[*Term]*grouping, t *Term, name string) string {
	list, idx, f, ok := elemField(t)
	if !ok || list.Op != "sorted" || f != "HeadBlock" {
		return "it is not the head of the first of the sorted forks"
	}
	if n, isN := idx.int64(); !isN || n != 0 {
		return "it is not the first of the sorted forks"
	}
	for _, ev := range sortEvents(p) {
		if ev.Res != list {
			continue
		}
		fl := c.forkListOf(e, p, gs, list.Args[0], name)
		if fl == nil {
			return "the sorted list does not hold a fork per leashed block"
		}
		return c.sortedBy(e, ev, forkOrder())
	}
	return "the list is not sorted"
}

// lcaCall recognises lca(a, b)#0.
func lcaCall(t *Term) (a, b *Term) {
	t = strip(t)
	if t != nil && t.Op == "ext" && t.Sym == "0" && callName(t.Args[0]) == lcaName {
		n := len(t.Args[0].Args)
		return t.Args[0].Args[n-2], t.Args[0].Args[n-1]
	}
	return nil, nil
}

// longest decides whether t is the head of the longest fork.
func (c *Ctx) longest(e *Engine, p *Path, gs map[*Term]*grouping, t *Term, name string) string {
	if l, _, _, ok := elemField(t); ok && l.Op == "sorted" {
		return c.longestBySort(e, p, gs, t, name)
	}
	return c.longestBySelection(e, p, gs, t)
}

func runC07(c *Ctx) {
	// last common block of a peer
	if fn, paths, e := c.reportPaths("LCB"); fn != nil {
		name := fnName(c, fn)
		ap := fn.Params[1].Name()
		for _, p := range paths {
			if p.Kind != "return" || e.errOutcome(p) == errYes {
				continue
			}
			g, state := leashLookup(e, p.Facts, func(t *Term) bool { return t.is("param", ap) })
			if state == "absent" {
				c.check(isGenesisLike(p.ret(0)), "unleashed-genesis", name, p.Pos, p, "the last common block of an unleashed peer is %v instead of genesis", p.ret(0))
				continue
			}
			if !c.check(state == "found", "own-leash", name, p.Pos, p, "the last common block is not derived from the peer's leash") {
				continue
			}
			head := func(t *Term) bool {
				return t != nil && t.Op == "ext" && t.Sym == "0" && callName(t.Args[0]) == "proto.NewBlockIDFromBytes" &&
					t.Args[0].Args[0].is("ext", "0") && t.Args[0].Args[0].Args[0] == g
			}
			gs := c.groupings(e, p, name, nil)
			c.commonBlock(e, p, gs, p.ret(0), head, name)
		}
		c.atLeast("common-block", 2, "last common block results")
	}
	// the fork of a peer
	c.forkOfPeer()
	// the list of forks
	if fn, paths, e := c.reportPaths("Forks"); fn != nil {
		name := fnName(c, fn)
		pp := e.paramTerm(fn, 1, fn.Params[1])
		for _, p := range paths {
			if p.Kind != "return" || e.errOutcome(p) == errYes {
				continue
			}
			gs := c.groupings(e, p, name, c.lookupFilter(e, p, pp))
			list := p.ret(0)
			if emptyResult(e, p, list) {
				c.check(len(gs) > 0, "forks-empty", name, p.Pos, p, "no forks are reported without looking at the leashes")
				continue
			}
			srt := sortEvents(p)
			okS := false
			why := "the list is not sorted"
			for _, ev := range srt {
				if ev.Res.Args[0] == list {
					okS = true
					why = c.sortedBy(e, ev, forkOrder())
				}
			}
			c.check(okS && why == "", "forks-order", name, p.Pos, p, "the order of reported forks is wrong: %s", why)
			fl := c.forkListOf(e, p, gs, list, name)
			c.check(fl != nil, "forks-list", name, p.Pos, p, "the report %v does not hold one fork per leashed block", list)
			c.forksFinal(e, p, gs, list, name, fl != nil && fl.initLen)
		}
		c.atLeast("forks-order", 1, "sorted fork reports")
	}
	c.atLeast("all-leashes", 3, "tables of leashes")
}

// emptyResult: the list is known to have no elements.
func emptyResult(e *Engine, p *Path, list *Term) bool {
	if list.Op == "nil" || emptySlice(list) {
		return true
	}
	if e.knownNil(p.Facts, list) {
		return true
	}
	for _, f := range p.Facts {
		if f.Val && f.Atom.Op == "eq" && f.Atom.Args[0].Op == "len" && f.Atom.Args[0].Args[0] == list {
			if n, ok := f.Atom.Args[1].int64(); ok && n == 0 {
				return true
			}
		}
		if f.Val && f.Atom.Op == "lt" && f.Atom.Args[0].Op == "len" && f.Atom.Args[0].Args[0] == list {
			if n, ok := f.Atom.Args[1].int64(); ok && n <= 1 {
				return true
			}
		}
	}
	return false
}

// lookupFilter: a leash is included if no peers were asked for or its peer is among them.
func (c *Ctx) lookupFilter(e *Engine, p *Path, peers *Term) func(facts []Fact, addr *Term) (bool, bool) {
	return func(facts []Fact, addr *Term) (bool, bool) {
		all := append(append([]Fact{}, p.Facts[:min(len(p.Facts), 6)]...), facts...)
		empty, has := 0, 0 // 1 yes, -1 no
		for _, f := range all {
			a := f.Atom
			val := f.Val
			switch {
			case a.Op == "eq" && a.Args[0].Op == "len" && a.Args[0].Args[0] == peers:
				if n, ok := a.Args[1].int64(); ok && n == 0 {
					empty = sign(val)
				}
			case a.Op == "lt" && a.Args[1].Op == "len" && a.Args[1].Args[0] == peers:
				if n, ok := a.Args[0].int64(); ok && n == 0 {
					empty = sign(!val)
				}
			case a.Op == "eq" && a.Args[0] == peers && a.Args[1].Op == "nil" && val:
				empty = 1
			case a.Op == "has" && a.Args[0] == peers:
				if k, _ := c.leashSourceAny(e, p, a.Args[1]); k == "addr" {
					has = sign(val)
				}
			}
		}
		switch {
		case empty == 1 || has == 1:
			return true, true
		case empty == -1 && has == -1:
			return false, true
		}
		return true, false
	}
}

func sign(b bool) int {
	if b {
		return 1
	}
	return -1
}

func (c *Ctx) leashSourceAny(e *Engine, p *Path, t *Term) (string, *Term) {
	for _, ev := range p.Events {
		if ev.Kind == "loop" {
			if k, o := c.leashSource(e, p, ev, t); k != "" {
				return k, o
			}
		}
	}
	return "", nil
}

// commonBlock: r is the last common block of head and the longest fork.
func (c *Ctx) commonBlock(e *Engine, p *Path, gs map[*Term]*grouping, r *Term, head func(*Term) bool, name string) {
	if a, b := lcaCall(r); a != nil {
		if head(a) {
			a, b = b, a
		}
		if !c.check(head(b), "common-block", name, p.Pos, p, "the common ancestor of %v and %v is reported, not that of the peer's leash", a, b) {
			return
		}
		why := c.longest(e, p, gs, a, name)
		c.check(why == "", "longest", name, p.Pos, p, "the peer's chain is not compared with the longest fork: %s", why)
		return
	}
	// the peer is on the longest fork
	for _, f := range p.Facts {
		if !f.Val || f.Atom.Op != "eq" {
			continue
		}
		x, y := f.Atom.Args[0], f.Atom.Args[1]
		if head(y) {
			x, y = y, x
		}
		if head(x) && (r == x || r == y) {
			why := c.longest(e, p, gs, y, name)
			c.check(why == "", "longest", name, p.Pos, p, "the peer's chain is not compared with the longest fork: %s", why)
			c.ok("common-block")
			return
		}
	}
	c.check(false, "common-block", name, p.Pos, p, "the last common block %v is neither a common ancestor with the longest fork nor the peer's leash on the longest fork", r)
}

// heightOf recognises the height of the given block, as stored.
func heightOf(t, id *Term) bool { return blockField(t, 0) == id }

// minus splits a - b, also a + (-b).
func minus(t *Term) (a, b *Term) {
	t = strip(t)
	if t != nil && t.Op == "bin" && t.Sym == "-" {
		return t.Args[0], t.Args[1]
	}
	if t != nil && t.Op == "bin" && t.Sym == "+" {
		for i := 0; i < 2; i++ {
			if t.Args[i].Op == "neg" {
				return t.Args[1-i], t.Args[i].Args[0]
			}
		}
	}
	return nil, nil
}

// forkOfPeer: the report of one peer's fork.
func (c *Ctx) forkOfPeer() {
	fn, paths, e := c.reportPaths("Fork")
	if fn == nil {
		return
	}
	name := fnName(c, fn)
	ap := fn.Params[1].Name()
	for _, p := range paths {
		if p.Kind != "return" || e.errOutcome(p) == errYes {
			continue
		}
		gs := c.groupings(e, p, name, nil)
		r := p.ret(0)
		if r.Op != "struct" && r.Op != "havoc" && r.Op != "loopphi" {
			c.check(false, "fork-of-peer", name, p.Pos, p, "the report %v is not the fork of the peer", r)
			continue
		}
		get := func(n string) *Term {
			if r.Op == "struct" {
				return structField(r, n)
			}
			return e.tt.mk("field", n, nil, r)
		}
		// the loop-carried fork report
		hb := get("HeadBlock")
		var cur *loopVar
		var loop *Event
		for _, ev := range p.Events {
			if ev.Kind != "loop" {
				continue
			}
			vs := loopVars(e, ev)
			for i := range vs {
				if hb.contains(vs[i].cur) {
					cur, loop = &vs[i], ev
				}
			}
		}
		if !c.check(cur != nil, "fork-of-peer", name, p.Pos, p, "the head %v of the fork is not taken from the leashes", hb) {
			continue
		}
		initLen, initLCB := true, true
		for bi, b := range loop.Loop.Bodies {
			var m, key, val *Term
			for _, f := range b.own() {
				if f.Atom.Op == "more" && f.Val {
					m = f.Atom.Args[0].Args[0]
					key = e.tt.mk("mapkey", f.Atom.Sym, nil, m)
					val = e.tt.mk("mapval", f.Atom.Sym, nil, m)
				}
			}
			if !c.check(m != nil && gs[m] != nil && exhausted(e, p, loop, m), "fork-of-peer", name, loop.Pos, p, "the fork is not looked for among all leashed blocks") {
				break
			}
			onIt := 0
			for _, f := range b.own() {
				a := f.Atom
				if callName(a) == "slices.Contains" && a.Args[0] == val && a.Args[1].is("param", ap) {
					onIt = sign(f.Val)
				}
				if a.Op == "lt" && strings.HasPrefix(callName(a.Args[0]), "slices.Index") && a.Args[0].Args[0] == val {
					if n, ok := a.Args[1].int64(); ok && n == 0 {
						onIt = sign(!f.Val)
					}
				}
				// an inner loop over the peers
				if f.Val && a.Op == "eq" && (a.Args[0].is("param", ap) && isElemOf(a.Args[1], val) || a.Args[1].is("param", ap) && isElemOf(a.Args[0], val)) {
					onIt = 1
				}
			}
			if onIt == 0 {
				for _, f := range b.own() {
					if !f.Val && f.Atom.Op == "lt" && f.Atom.Args[0].Op == "iter" && f.Atom.Args[1].Op == "len" && f.Atom.Args[1].Args[0] == val {
						onIt = -1
					}
				}
			}
			nx := cur.next[bi]
			switch {
			case nx == cur.cur:
				c.check(onIt == -1, "fork-of-peer", name, loop.Pos, p, "the fork of a block the peer is leashed to is passed over")
			case nx.Op == "struct":
				c.check(onIt == 1, "fork-of-peer", name, loop.Pos, p, "the fork of a block the peer is not leashed to is reported")
				ln, lcb := c.forkFields(nx, key, val, b.Facts, loop, p, name)
				initLen, initLCB = initLen && ln, initLCB && lcb
			default:
				c.check(false, "fork-of-peer", name, loop.Pos, p, "the fork report becomes %v", nx)
			}
		}
		// untouched fields
		for _, n := range []string{"HeadBlock", "HeadTimestamp", "HeadGenerator", "HeadHeight", "Score", "PeersCount", "Peers"} {
			c.check(get(n) == e.tt.mk("field", n, nil, cur.cur), "fork-of-peer", name+" "+n, p.Pos, p, "%s of the reported fork is %v", n, get(n))
		}
		head := func(t *Term) bool { return t == hb }
		c.commonBlock(e, p, gs, lcbOf(e, initLCB, get("LastCommonBlock"), cur.cur, hb), head, name)
		lg, isB := get("Longest").boolVal()
		onLongest := false
		for _, f := range p.Facts {
			if f.Atom.Op == "eq" && (f.Atom.Args[0] == hb || f.Atom.Args[1] == hb) && f.Val {
				onLongest = true
			}
		}
		ln := get("Length")
		full := func(a *Term) bool {
			return initLen && a == e.tt.mk("field", "Length", nil, cur.cur) || strip(a) == e.tt.mk("field", "HeadHeight", nil, cur.cur)
		}
		if onLongest {
			n, isN := ln.int64()
			okL := isN && n == 0
			if !okL {
				if a, b := minus(ln); a != nil && full(a) {
					okL = heightOf(b, get("LastCommonBlock"))
				}
			}
			c.check(isB && lg, "fork-longest", name, p.Pos, p, "the longest fork is not marked")
			c.check(okL, "fork-length", name, p.Pos, p, "the length of the longest fork is %v", ln)
		} else {
			notMarked := isB && !lg || get("Longest") == e.tt.mk("field", "Longest", nil, cur.cur)
			c.check(notMarked, "fork-longest", name, p.Pos, p, "a fork that is not the longest is marked as such")
			a, b := minus(ln)
			okL := a != nil && heightOf(b, get("LastCommonBlock")) && full(a)
			c.check(okL, "fork-length", name, p.Pos, p, "the length %v of a fork is not its height above the last common block", ln)
		}
	}
	c.atLeast("fork-of-peer", 10, "steps of the search for a peer's fork")
}

// lcbOf: on the longest fork the last common block may be left at its initial value, the head.
func lcbOf(e *Engine, initLCB bool, t, cur, hb *Term) *Term {
	if initLCB && t == e.tt.mk("field", "LastCommonBlock", nil, cur) {
		return hb
	}
	return t
}

func isElemOf(t, list *Term) bool {
	t = strip(t)
	if t.Op == "load" {
		t = t.Args[0]
	}
	return (t.Op == "index" || t.Op == "iaddr") && t.Args[0] == list
}

// forksFinal checks what is done to the sorted list: the first is marked longest, every fork gets its last common block
// with the longest and its length above it.
func (c *Ctx) forksFinal(e *Engine, p *Path, gs map[*Term]*grouping, list *Term, name string, initLen bool) {
	stores := func(pp *Path, f func(ev *Event, l, idx *Term, field string)) {
		for _, ev := range pp.Events {
			if ev.Kind != "store" || ev.Args[0].Op != "faddr" {
				continue
			}
			b := ev.Args[0].Args[0]
			if b.Op == "iaddr" {
				f(ev, b.Args[0], b.Args[1], ev.Args[0].Sym)
			}
		}
	}
	first := func(idx *Term) bool { n, ok := idx.int64(); return ok && n == 0 }
	isList := func(l *Term) bool { return l.Op == "sorted" && l.Args[0] == list }
	marked := 0
	stores(p, func(ev *Event, l, idx *Term, field string) {
		switch {
		case field == "Longest":
			v, ok := ev.Args[1].boolVal()
			c.check(isList(l) && first(idx) && ok && v, "fork-longest", name, ev.Pos, p, "fork %v of %v is marked longest: %v", idx, l, ev.Args[1])
			marked++
		default:
			c.check(false, "fork-field", name, ev.Pos, p, "%s of fork %v is changed after the report was built", field, idx)
		}
	})
	done := false
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		touches := false
		for _, b := range ev.Loop.Bodies {
			var lcb, ln *Term
			mark := 0
			var pos = ev.Pos
			it := e.tt.mk("iter", ev.Loop.ID, types.Typ[types.Int])
			stores(b, func(x *Event, l, idx *Term, field string) {
				if !isList(l) {
					return
				}
				touches = true
				pos = x.Pos
				if field != "Longest" {
					c.check(idx == it, "fork-field", name, x.Pos, b, "%s of fork %v is set while visiting fork %v", field, idx, it)
				}
				switch field {
				case "LastCommonBlock":
					lcb = x.Args[1]
				case "Length":
					ln = x.Args[1]
				case "Longest":
					mark++
					v, ok := x.Args[1].boolVal()
					isFirst := false
					for _, f := range b.own() {
						if f.Val && f.Atom.Op == "eq" && f.Atom.Args[0] == it {
							n, k := f.Atom.Args[1].int64()
							isFirst = k && n == 0
						}
					}
					okM := ok && (!v || isFirst) || x.Args[1].Op == "eq" && x.Args[1].Args[0] == it
					c.check(okM, "fork-longest", name, x.Pos, b, "a fork other than the first is marked longest")
					marked++
				default:
					c.check(false, "fork-field", name, x.Pos, b, "%s of a fork is changed after the report was built", field)
				}
			})
			if !touches {
				continue
			}
			if !c.check(lcb != nil && ln != nil, "fork-common", name, pos, b, "a fork is reported without its last common block or length") {
				continue
			}
			x, y := lcaCall(lcb)
			okHead := func(t *Term) bool {
				l, i, f, ok := elemField(t)
				return ok && isList(l) && i == it && f == "HeadBlock"
			}
			if x != nil && okHead(x) && !okHead(y) {
				x, y = y, x
			}
			if !c.check(x != nil && okHead(y), "fork-common", name, pos, b, "the last common block of a fork is %v", lcb) {
				continue
			}
			why := c.longest(e, p, gs, x, name)
			c.check(why == "", "longest", name, pos, b, "forks are not compared with the longest one: %s", why)
			a, h := minus(ln)
			okA := a != nil && (initLen && ofFork(a, "Length", isList, it) || ofFork(a, "HeadHeight", isList, it))
			c.check(okA && heightOf(h, lcb), "fork-length", name, pos, b, "the length %v of a fork is not its height above the last common block", ln)
		}
		if touches {
			done = true
			c.check(exhausted(e, p, ev, list), "fork-common", name, ev.Pos, p, "not every fork gets its last common block")
		}
	}
	c.check(done, "fork-common", name, p.Pos, p, "the last common blocks of forks are never determined")
	c.check(marked >= 1, "fork-longest", name, p.Pos, p, "no fork is marked longest")
}

var _ = constant.MakeInt64
