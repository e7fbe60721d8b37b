package main

import (
	"go/types"
)

// Walks over stored chains: lists of ancestors and common ancestors.

// guardSide tells what a fact says about a loop that runs at most count times: 1 another round follows, -1 the rounds
// are used up, 0 nothing.
func guardSide(e *Engine, ev *Event, list *Term, count *Term, f Fact) int {
	a, val := f.Atom, f.Val
	made := func(t *Term) bool { return t.is("iter", ev.Loop.ID) || t.Op == "len" && t.Args[0] == list }
	switch {
	case a.Op == "lt" && made(a.Args[0]) && a.Args[1] == count:
		return sign(val)
	case a.Op == "lt" && a.Args[0] == count && made(a.Args[1]) && val:
		return -1
	case a.Op == "eq" && (made(a.Args[0]) && a.Args[1] == count || made(a.Args[1]) && a.Args[0] == count):
		return sign(!val)
	}
	// a counter running down from count
	for _, v := range loopVars(e, ev) {
		if v.init != count {
			continue
		}
		down := len(v.next) > 0
		for _, n := range v.next {
			down = down && n == e.addConst(v.cur, -1, types.Typ[types.Int])
		}
		if !down {
			continue
		}
		zero := func(t *Term) bool { n, ok := t.int64(); return ok && n == 0 }
		one := func(t *Term) bool { n, ok := t.int64(); return ok && n == 1 }
		switch {
		case a.Op == "lt" && zero(a.Args[0]) && a.Args[1] == v.cur:
			return sign(val)
		case a.Op == "lt" && a.Args[0] == v.cur && one(a.Args[1]):
			return sign(!val)
		case a.Op == "eq" && a.Args[0] == v.cur && zero(a.Args[1]):
			return sign(!val)
		}
	}
	return 0
}

// genesisFact: the fact says whether the block with the given number has no parent: 1 none, -1 has one.
func genesisFact(n *Term, f Fact) int {
	a := f.Atom
	isLen := func(t *Term) bool {
		if t.Op != "len" {
			return false
		}
		if isParentsOf(t.Args[0], n) {
			return true
		}
		rec, tg, ok := fieldTag(t.Args[0])
		return ok && tg == 4 && decodedAt(rec, 1) == n
	}
	zero := func(t *Term) bool { k, ok := t.int64(); return ok && k == 0 }
	isHeight := func(t *Term) bool {
		rec, tg, ok := fieldTag(strip(t))
		return ok && tg == 0 && (decodedAt(rec, 1) == n || decodedAt(rec, 2) == n)
	}
	switch {
	case a.Op == "eq" && isLen(a.Args[0]) && zero(a.Args[1]):
		return sign(f.Val)
	case a.Op == "lt" && zero(a.Args[0]) && isLen(a.Args[1]):
		return sign(!f.Val)
	case a.Op == "eq" && isHeight(a.Args[0]):
		if k, ok := a.Args[1].int64(); ok && k == 1 {
			return sign(f.Val)
		}
	case a.Op == "lt" && isHeight(a.Args[1]):
		if k, ok := a.Args[0].int64(); ok && k == 1 {
			return sign(!f.Val)
		}
	}
	return 0
}

// walkOf checks that list holds the block with the given ID and its ancestors, nearest first, count of them or all.
func (c *Ctx) walkOf(e *Engine, p *Path, list, id, count *Term, elem func(x, n *Term) bool) string {
	base := list
	var last *Term
	if list.Op == "append" && len(list.Args) == 2 {
		base, last = list.Args[0], list.Args[1]
	}
	ev, ph := loopOfPhi(p, base)
	if ev == nil {
		if emptyList(list) {
			// nothing was asked for
			for _, f := range p.Facts {
				z := func(t *Term) bool { k, ok := t.int64(); return ok && k == 0 }
				if f.Atom.Op == "lt" && z(f.Atom.Args[0]) && f.Atom.Args[1] == count && !f.Val ||
					f.Atom.Op == "eq" && f.Atom.Args[0] == count && z(f.Atom.Args[1]) && f.Val {
					return ""
				}
			}
		}
		return "it is not collected by a walk"
	}
	if ph.Init == nil || !emptyList(ph.Init) {
		return "it does not start empty"
	}
	var n *loopVar
	vars := loopVars(e, ev)
	for i := range vars {
		if vars[i].init != nil && numOfID(vars[i].init) == id {
			n = &vars[i]
		}
	}
	if n == nil {
		return "the walk does not start at the given block"
	}
	for bi, b := range ev.Loop.Bodies {
		nx := n.next[bi]
		if nx.Op != "index" || !isParentsOf(nx.Args[0], n.cur) {
			return "the walk does not go on to the parent"
		}
		if k, ok := nx.Args[1].int64(); !ok || k != 0 {
			return "the walk does not go on to the parent"
		}
		x := ph.Backs[bi]
		if x.Op != "append" || len(x.Args) != 2 || x.Args[0] != base || !elem(x.Args[1], n.cur) {
			return "a visited block is not listed once"
		}
		in := 0
		for _, f := range b.own() {
			if g := guardSide(e, ev, base, count, f); g != 0 {
				in = g
			}
		}
		if in != 1 {
			return "more blocks than asked for are listed"
		}
	}
	end, tip := 0, 0
	for _, f := range p.Facts[min(ev.NFacts, len(p.Facts)):] {
		if g := guardSide(e, ev, base, count, f); g != 0 {
			end = g
		}
		if g := genesisFact(n.cur, f); g != 0 {
			tip = g
		}
	}
	switch {
	case last != nil && (end != 1 || tip != 1):
		return "the walk ends before genesis although more blocks are asked for"
	case last != nil && !elem(last, n.cur):
		return "the last visited block is not listed"
	case last == nil && end != -1:
		return "the walk ends before the given number of blocks"
	}
	return ""
}

// blockIDAt recognises the ID of the block with the given number.
func blockIDAt(t, n *Term) bool {
	t = strip(t)
	if t == nil || t.Op != "ext" || t.Sym != "0" || callName(t.Args[0]) != "proto.NewBlockIDFromBytes" {
		return false
	}
	rec, tg, ok := fieldTag(strip(t.Args[0].Args[0]))
	return ok && (tg == 1 && decodedAt(rec, 2) == n || tg == 3 && decodedAt(rec, 1) == n)
}

func generatorAt(t, n *Term) bool {
	t = strip(t)
	if t == nil || t.Op != "ext" || t.Sym != "0" || callName(t.Args[0]) != "proto.NewAddressFromBytes" {
		return false
	}
	rec, tg, ok := fieldTag(strip(t.Args[0].Args[0]))
	return ok && tg == 5 && decodedAt(rec, 1) == n
}

func runC27(c *Ctx) {
	if fn := c.root("chains", "Linkage", "LastIDs"); fn != nil {
		paths, e := c.paths(fn)
		id, count := e.paramTerm(fn, 1, fn.Params[1]), e.paramTerm(fn, 2, fn.Params[2])
		for _, p := range paths {
			if p.Kind != "return" || e.errOutcome(p) == errYes {
				continue
			}
			why := c.walkOf(e, p, p.ret(0), id, count, blockIDAt)
			c.check(why == "", "last-ids", fnName(c, fn), p.Pos, p, "the list of last blocks %v is wrong: %s", p.ret(0), why)
		}
		c.atLeast("last-ids", 2, "lists of last blocks")
	}
	if fn := c.root("chains", "Linkage", "ForkGenerators"); fn != nil {
		paths, e := c.paths(fn)
		id, count := e.paramTerm(fn, 1, fn.Params[1]), e.paramTerm(fn, 2, fn.Params[2])
		for _, p := range paths {
			if p.Kind != "return" || e.errOutcome(p) == errYes {
				continue
			}
			list := tallied(p)
			if list == nil {
				continue // covered by the property about reports
			}
			why := c.walkOf(e, p, list, id, count, func(x, n *Term) bool {
				return generatorAt(x, n) || x.Op == "struct" && generatorAt(structField(x, "Generator"), n)
			})
			c.check(why == "", "generators-walk", fnName(c, fn), p.Pos, p, "the blocks whose generators are counted are wrong: %s", why)
		}
	}
	c.lca()
}

// tallied gives the list over which a loop counts into a map.
func tallied(p *Path) *Term {
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		for _, b := range ev.Loop.Bodies {
			for _, x := range b.Events {
				if x.Kind == "mapset" {
					k := strip(x.Args[1])
					if l, _, _, ok := elemField(k); ok {
						return l
					}
					if (k.Op == "index" || k.Op == "iaddr") && len(k.Args) == 2 {
						return k.Args[0]
					}
				}
			}
		}
	}
	return nil
}

// ---- common ancestor ----

// recField recognises a field of a link record held in a variable.
func linkField(rec *Term, tag int, t *Term) bool {
	t = strip(t)
	r, tg, ok := fieldTag(t)
	return ok && tg == tag && r == rec
}

func isRefOf(t, rec, i *Term) bool {
	t = strip(t)
	return t != nil && t.Op == "index" && linkField(rec, 2, t.Args[0]) && t.Args[1] == i
}

// stepOf: next is the record of the i-th reference of rec; gives i.
func stepOf(next, rec *Term) *Term {
	n := decodedAt(next, 2)
	if n == nil || n.Op != "index" || !linkField(rec, 2, n.Args[0]) {
		return nil
	}
	return n.Args[1]
}

// sameBlock: the fact compares the blocks of two records: 1 same, -1 different.
func sameBlock(f Fact, a, b *Term) int {
	t := f.Atom
	var x, y *Term
	switch {
	case t.Op == "eq":
		x, y = t.Args[0], t.Args[1]
	case callName(t) == "bytes.Equal":
		x, y = t.Args[0], t.Args[1]
	default:
		return 0
	}
	for _, q := range [][2]*Term{{x, y}, {y, x}} {
		if linkField(a, 1, q[0]) && linkField(b, 1, q[1]) {
			return sign(f.Val)
		}
	}
	return 0
}

// reach: the fact says whether the ancestor 2^i above a is not below b: 1 yes, -1 no.
func reach(f Fact, a, b, i *Term) int {
	t := f.Atom
	if t.Op != "lt" {
		return 0
	}
	pow := func(x *Term) bool {
		x = strip(x)
		if x.Op != "bin" || x.Sym != "<<" {
			return false
		}
		n, ok := strip(x.Args[0]).int64()
		return ok && n == 1 && strip(x.Args[1]) == i
	}
	up := func(x *Term) bool { // height of a minus 2^i
		l, r := minus(x)
		return l != nil && linkField(a, 0, l) && pow(r)
	}
	down := func(x *Term) bool { // height of b plus 2^i
		x = strip(x)
		return x.Op == "bin" && x.Sym == "+" && (linkField(b, 0, x.Args[0]) && pow(x.Args[1]) || linkField(b, 0, x.Args[1]) && pow(x.Args[0]))
	}
	gap := func(x *Term) bool { // difference of heights
		l, r := minus(x)
		return l != nil && linkField(a, 0, l) && linkField(b, 0, r)
	}
	switch {
	case up(t.Args[0]) && linkField(b, 0, t.Args[1]), linkField(a, 0, t.Args[0]) && down(t.Args[1]), gap(t.Args[0]) && pow(t.Args[1]):
		return sign(!f.Val)
	}
	return 0
}

func (c *Ctx) lca() {
	fn := c.root("chains", "storage", "lca")
	if fn == nil {
		return
	}
	name := fnName(c, fn)
	paths, e := c.paths(fn)
	id1, id2 := e.paramTerm(fn, 1, fn.Params[1]), e.paramTerm(fn, 2, fn.Params[2])
	for _, p := range paths {
		if p.Kind != "return" || e.errOutcome(p) == errYes {
			continue
		}
		why := c.lcaPath(e, p, id1, id2)
		c.check(why == "", "common-ancestor", name, p.Pos, p, "the common ancestor is wrong: %s", why)
	}
	c.atLeast("common-ancestor", 2, "results of the search for a common ancestor")
}

func (c *Ctx) lcaPath(e *Engine, p *Path, id1, id2 *Term) string {
	// records of both blocks
	var r1, r2 *Term
	for _, ev := range p.Events {
		find := func(t *Term) {
			if t == nil {
				return
			}
			t.any(func(x *Term) bool {
				if n := decodedAt(x, 2); n != nil {
					switch numOfID(n) {
					case id1:
						r1 = x
					case id2:
						r2 = x
					}
				}
				return false
			})
		}
		for _, a := range ev.Args {
			find(a)
		}
		if ev.Kind == "loop" {
			for _, v := range loopVars(e, ev) {
				find(v.init)
			}
		}
	}
	for _, f := range p.Facts {
		f.Atom.any(func(x *Term) bool {
			if n := decodedAt(x, 2); n != nil {
				switch numOfID(n) {
				case id1:
					r1 = x
				case id2:
					r2 = x
				}
			}
			return false
		})
	}
	ret := strip(p.ret(0))
	if ret == id1 || ret == id2 {
		for _, f := range p.Facts {
			if f.Val && f.Atom.Op == "eq" && (f.Atom.Args[0] == id1 && f.Atom.Args[1] == id2 || f.Atom.Args[0] == id2 && f.Atom.Args[1] == id1) {
				return ""
			}
		}
	}
	if r1 == nil || r2 == nil {
		return "the links of the given blocks are not read"
	}
	cur := [2]*Term{r1, r2}
	levelled, siblings := false, false
	differ := func() bool {
		for _, f := range p.Facts {
			if sameBlock(f, cur[0], cur[1]) == -1 {
				return true
			}
		}
		return false
	}
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		vars := loopVars(e, ev)
		var v [2]*loopVar
		for i := range vars {
			for k := range v {
				if vars[i].init != nil && vars[i].init == cur[k] {
					v[k] = &vars[i]
				}
			}
		}
		if v[0] == nil && v[1] == nil {
			continue
		}
		at := cur
		for k := range v {
			if v[k] != nil {
				at[k] = v[k].cur
			}
		}
		nx := func(k, bi int) *Term {
			if v[k] == nil {
				return at[k]
			}
			return v[k].next[bi]
		}
		moves := 0 // 1: one side only, 2: both
		deep := -1
		var idx *Term
		for bi := range ev.Loop.Bodies {
			n0, n1 := nx(0, bi), nx(1, bi)
			m, d := 0, -1
			for k, n := range []*Term{n0, n1} {
				if n != at[k] {
					m++
					d = k
					i := stepOf(n, at[k])
					if i == nil {
						return "a step does not go to an ancestor of the block"
					}
					if idx != nil && idx != i {
						return "the two chains are followed by different distances"
					}
					idx = i
				}
			}
			if m == 0 {
				continue
			}
			if moves != 0 && moves != m || m == 1 && deep >= 0 && deep != d {
				return "one chain is followed further than the other"
			}
			moves, deep = m, d
		}
		if moves == 0 || idx == nil {
			continue
		}
		// how the distance develops
		var iv *loopVar
		for i := range vars {
			if vars[i].cur == idx {
				iv = &vars[i]
			}
		}
		if iv == nil || iv.init == nil {
			return "the distance of steps is not varied"
		}
		top := func(t, rec *Term) bool {
			t = strip(t)
			if t.Op != "bin" || t.Sym != "+" || t.Args[0].Op != "len" || !linkField(rec, 2, t.Args[0].Args[0]) {
				return false
			}
			k, ok := t.Args[1].int64()
			return ok && k == -1
		}
		start := func(t *Term, a, b *Term) bool {
			if m, k := offset(t); moves == 2 && k == -1 && m.Op == "minmax" && m.Sym == "min" {
				x, y := m.Args[0], m.Args[1]
				is := func(t, rec *Term) bool { return t.Op == "len" && linkField(rec, 2, t.Args[0]) }
				return is(x, a) && is(y, b) || is(x, b) && is(y, a)
			}
			return top(t, a) || moves == 2 && top(t, b) ||
				moves == 2 && t.Op == "minmax" && t.Sym == "min" && top(t.Args[0], a) && top(t.Args[1], b)
		}
		d := deep
		if moves == 1 {
			if !start(iv.init, cur[d], cur[1-d]) {
				return "the steps do not start with the longest"
			}
			if !notBelow(e, p.Facts[:min(ev.NFacts, len(p.Facts))], cur[d], cur[1-d]) {
				return "the chain of the lower block is followed"
			}
		} else {
			if !levelled {
				return "the chains are followed together before they are at the same height"
			}
			if !start(iv.init, cur[0], cur[1]) {
				return "the steps do not start with the longest"
			}
			if !differ() {
				return "the chains are followed although they have met"
			}
		}
		for bi, b := range ev.Loop.Bodies {
			moved := nx(0, bi) != at[0] || nx(1, bi) != at[1]
			r, short, same := 0, 0, 0
			for _, f := range b.own() {
				if moves == 1 {
					if x := reach(f, at[d], at[1-d], idx); x != 0 {
						r = x
					}
				}
				a := f.Atom
				if a.Op == "lt" && a.Args[0] == idx && a.Args[1].Op == "len" {
					if (linkField(at[0], 2, a.Args[1].Args[0]) || linkField(at[1], 2, a.Args[1].Args[0])) && !f.Val {
						short = 1
					}
				}
				if a.Op == "eq" {
					for _, q := range [][2]*Term{{a.Args[0], a.Args[1]}, {a.Args[1], a.Args[0]}} {
						if isRefOf(q[0], at[0], idx) && isRefOf(q[1], at[1], idx) {
							same = sign(f.Val)
						}
					}
				}
			}
			if moves == 1 {
				if moved && r != 1 {
					return "a step can go below the height of the other block"
				}
				if !moved && r != -1 && short != 1 {
					return "a possible step towards the height of the other block is not taken"
				}
			} else {
				if moved && same != -1 {
					return "a step can go beyond the last common block"
				}
				if !moved && same != 1 && short != 1 {
					return "a possible step towards the last common block is not taken"
				}
			}
			nxt := iv.next[bi]
			dec := nxt == e.addConst(idx, -1, types.Typ[types.Int])
			again := moved && moves == 1 && top(nxt, nx(d, bi))
			if again {
				ok := false
				for _, f := range b.own() {
					if f.Atom.Op == "lt" && f.Atom.Args[0] == idx && f.Atom.Args[1].Op == "len" && linkField(nx(d, bi), 2, f.Atom.Args[1].Args[0]) && !f.Val {
						ok = true
					}
				}
				again = ok
			}
			if !dec && !again {
				return "the distance of steps does not decrease one by one"
			}
		}
		ended := false
		for _, f := range p.Facts[min(ev.NFacts, len(p.Facts)):] {
			if f.Atom.Op == "lt" && f.Atom.Args[0] == idx && f.Val {
				if n, ok := f.Atom.Args[1].int64(); ok && n == 0 {
					ended = true
				}
			}
			if f.Atom.Op == "lt" && f.Atom.Args[1] == idx && !f.Val {
				if n, ok := f.Atom.Args[0].int64(); ok && n == -1 {
					ended = true
				}
			}
		}
		if !ended {
			return "the steps end before the shortest"
		}
		cur = at
		if moves == 1 {
			levelled = true
		} else {
			siblings = true
		}
	}
	// the result
	if ret == nil || ret.Op != "ext" || callName(ret.Args[0]) != "proto.NewBlockIDFromBytes" {
		return "the result is " + p.ret(0).String()
	}
	rec, tg, ok := fieldTag(strip(ret.Args[0].Args[0]))
	if !ok || tg != 1 && tg != 3 {
		return "the result is not the ID of a stored block"
	}
	if siblings {
		n := decodedAt(rec, 2)
		if n == nil {
			n = decodedAt(rec, 1)
		}
		if n != nil && n.Op == "index" && (linkField(cur[0], 2, n.Args[0]) || linkField(cur[1], 2, n.Args[0])) {
			if k, isN := n.Args[1].int64(); isN && k == 0 {
				return ""
			}
		}
		return "the result is not the parent of the last different blocks"
	}
	if rec == cur[0] || rec == cur[1] {
		for _, f := range p.Facts {
			if sameBlock(f, cur[0], cur[1]) == 1 {
				return ""
			}
		}
		return "a block is the result although the chains have not met there"
	}
	return "the result is not a common block"
}

// notBelow: a is known to be at least as high as b.
func notBelow(e *Engine, facts []Fact, a, b *Term) bool {
	for _, f := range facts {
		t := f.Atom
		if t.Op != "lt" {
			continue
		}
		if linkField(a, 0, t.Args[0]) && linkField(b, 0, t.Args[1]) && !f.Val {
			return true
		}
		if linkField(b, 0, t.Args[0]) && linkField(a, 0, t.Args[1]) && f.Val {
			return true
		}
	}
	return false
}
