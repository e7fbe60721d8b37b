package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Summaries of what is stored: heads, heads in use, numbers of forks, generators.

func runC30(c *Ctx) {
	c.headContents()
	c.activeHeads()
	c.forkCounts()
	c.generatorCounts()
}

// parallel: two lists that a loop fills with one element each per round.
func parallel(p *Path, a, b *Term) bool {
	if a == b {
		return true
	}
	ea, pa := loopOfPhi(p, a)
	eb, pb := loopOfPhi(p, b)
	if ea == nil || ea != eb || pa.Init == nil || pb.Init == nil || !emptyList(pa.Init) || !emptyList(pb.Init) {
		return false
	}
	one := func(ph *LoopPhi) bool {
		for _, x := range ph.Backs {
			if x.Op != "append" || len(x.Args) != 2 || x.Args[0] != ph.Term {
				return false
			}
		}
		return true
	}
	return one(pa) && one(pb)
}

// headItem tells what part of a head record a term is: its number ("num") or the number of its block ("blk").
func headItem(t *Term) (what string, it *Term) {
	t = strip(t)
	if t == nil || t.Op != "unbe64" {
		return "", nil
	}
	v := t.Args[0]
	if isCallSuffixT(v, ").Value") {
		return "blk", v.Args[0]
	}
	if v.Op == "slice" && isCallSuffixT(v.Args[0], ").Key") {
		if k, ok := v.Args[1].int64(); ok && k == 1 && (len(v.Args) < 3 || v.Args[2].Op == "nil") {
			return "num", v.Args[0].Args[0]
		}
	}
	return "", nil
}

func isCallSuffixT(t *Term, suffix string) bool {
	n := callName(t)
	return len(n) >= len(suffix) && n[len(n)-len(suffix):] == suffix
}

// headSource: t is part of the head record that round ev of a loop visits, all head records being visited in turn.
func (c *Ctx) headSource(e *Engine, p *Path, ev *Event, t *Term) (what string, over *Term) {
	t = strip(t)
	if t == nil {
		return "", nil
	}
	if k, it := headItem(t); k != "" {
		return k, it
	}
	b := t
	if b.Op == "load" {
		b = b.Args[0]
	}
	if (b.Op == "index" || b.Op == "iaddr") && b.Args[1].is("iter", ev.Loop.ID) {
		src, ph := loopOfPhi(p, b.Args[0])
		if src == nil || ph.Init == nil || !emptyList(ph.Init) {
			return "", nil
		}
		kind := ""
		var it *Term
		for _, x := range ph.Backs {
			if x.Op != "append" || len(x.Args) != 2 || x.Args[0] != b.Args[0] {
				return "", nil
			}
			k, i := headItem(x.Args[1])
			if k == "" || kind != "" && k != kind {
				return "", nil
			}
			kind, it = k, i
		}
		if it == nil || !exhausted(e, p, src, it) || !c.headRange(e, p, it) {
			return "", nil
		}
		return kind, b.Args[0]
	}
	// a field of a record collected before
	if list, idx, f, ok := elemField(t); ok && idx.is("iter", ev.Loop.ID) {
		src, ph := loopOfPhi(p, list)
		if src == nil || ph.Init == nil || !emptyList(ph.Init) {
			return "", nil
		}
		kind := ""
		var it *Term
		for _, x := range ph.Backs {
			if x.Op != "append" || len(x.Args) != 2 || x.Args[0] != list {
				return "", nil
			}
			k, i := headItem(structField(x.Args[1], f))
			if k == "" || kind != "" && k != kind {
				return "", nil
			}
			kind, it = k, i
		}
		if it == nil || !exhausted(e, p, src, it) || !c.headRange(e, p, it) {
			return "", nil
		}
		return kind, list
	}
	return "", nil
}

// headRange: the iterator covers all head records.
func (c *Ctx) headRange(e *Engine, p *Path, it *Term) bool {
	for _, ev := range p.Events {
		if !isCallSuffix(ev, ").NewIterator") || ev.Res != it {
			continue
		}
		if r := unface(ev.Args[1]); callName(r) == "util.BytesPrefix" {
			return c.iterRange(e, p, it, 4)
		}
		lo, hi, ok := rangeOf(e, p, ev)
		if !ok {
			return false
		}
		if a, b := numKey(lo, 4), numKey(hi, 4); a != nil && b != nil {
			x, ok := a.int64()
			return ok && x <= 1 && isMax64(b)
		}
		return lowKey(lo, 4) && highKey(hi, 4)
	}
	return false
}

// headListOf checks that list has one element per stored head: its own number and its own block.
func (c *Ctx) headListOf(e *Engine, p *Path, list *Term) string {
	ev, elems, why := listOf(e, p, list)
	if ev == nil {
		return why
	}
	var over *Term
	for _, el := range elems {
		if el == nil {
			return "a head is left out"
		}
		k, o1 := c.headSource(e, p, ev, structField(el, "ID"))
		if k != "num" {
			return "the number of a head is not the stored one"
		}
		id := strip(structField(el, "BlockID"))
		var n *Term
		if id != nil && id.Op == "ext" && id.Sym == "0" && callName(id.Args[0]) == "proto.NewBlockIDFromBytes" {
			if rec, tg, ok := fieldTag(strip(id.Args[0].Args[0])); ok {
				switch tg {
				case 3:
					n = decodedAt(rec, 1)
				case 1:
					n = decodedAt(rec, 2)
				}
			}
		}
		k, o2 := c.headSource(e, p, ev, n)
		if n == nil || k != "blk" {
			return "the block of a head is not the stored one"
		}
		if !parallel(p, o1, o2) {
			return "the number and the block of a head belong to different heads"
		}
		over = o2
		if exhausted(e, p, ev, o1) {
			over = o1
		}
	}
	if over == nil || !exhausted(e, p, ev, over) {
		return "not every head is listed"
	}
	if over.Op != "loopphi" && !c.headRange(e, p, over) {
		return "not every head record is read"
	}
	return ""
}

// listOf finds the loop that fills a list, one element (or none) per round.
func listOf(e *Engine, p *Path, list *Term) (ev *Event, elems []*Term, why string) {
	if list.Op == "sorted" {
		list = list.Args[0]
	}
	if ev, ph := loopOfPhi(p, list); ev != nil {
		if ph.Init == nil || !emptyList(ph.Init) {
			return nil, nil, "it does not start empty"
		}
		for _, b := range ph.Backs {
			switch {
			case b.Op == "append" && len(b.Args) == 2 && b.Args[0] == list:
				elems = append(elems, b.Args[1])
			case b == list:
				elems = append(elems, nil)
			default:
				return nil, nil, "a round does not add one element"
			}
		}
		return ev, elems, ""
	}
	if list.Op != "mkslice" {
		return nil, nil, "it is not filled by a loop"
	}
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		it := e.tt.mk("iter", ev.Loop.ID, types.Typ[types.Int])
		vars := loopVars(e, ev)
		var sink, parts []loopVar
		for _, v := range vars {
			if v.addr == nil {
				continue
			}
			a := v.addr
			if a.Op == "faddr" {
				a = a.Args[0]
			}
			if a.Op == "iaddr" && a.Args[0] == list {
				if a.Args[1] != it {
					return nil, nil, "an element is written at another place"
				}
				if v.addr.Op == "iaddr" {
					sink = append(sink, v)
				} else {
					parts = append(parts, v)
				}
			}
		}
		switch {
		case len(sink) == 1:
			for _, n := range sink[0].next {
				if n == sink[0].cur {
					n = nil
				}
				elems = append(elems, n)
			}
		case len(sink) == 0 && len(parts) > 0:
			sl, _ := list.Typ.Underlying().(*types.Slice)
			if sl == nil {
				continue
			}
			su, _ := sl.Elem().Underlying().(*types.Struct)
			if su == nil {
				continue
			}
			for bi := range ev.Loop.Bodies {
				var fs []*Term
				set := false
				for i := 0; i < su.NumFields(); i++ {
					v := e.zero(su.Field(i).Type())
					for _, pt := range parts {
						if pt.addr.Sym == su.Field(i).Name() && pt.next[bi] != pt.cur {
							v, set = pt.next[bi], true
						}
					}
					fs = append(fs, v)
				}
				var el *Term
				if set {
					el = e.mkStruct(sl.Elem(), fs)
				}
				elems = append(elems, el)
			}
		default:
			continue
		}
		// as long as the list the loop runs over
		n := list.Args[0]
		if n.Op == "len" && exhausted(e, p, ev, n.Args[0]) {
			return ev, elems, ""
		}
		for _, f := range p.Facts[min(ev.NFacts, len(p.Facts)):] {
			a := f.Atom
			if !f.Val && a.Op == "lt" && a.Args[0] == it && (a.Args[1] == n ||
				n.Op == "len" && a.Args[1].Op == "len" && parallel(p, a.Args[1].Args[0], n.Args[0])) {
				return ev, elems, ""
			}
		}
		return nil, nil, "its length is not the number of elements"
	}
	return nil, nil, "it is not filled by a loop"
}

func (c *Ctx) headContents() {
	fn := c.root("chains", "Linkage", "Heads")
	if fn == nil {
		return
	}
	paths, e := c.paths(fn)
	for _, p := range paths {
		if p.Kind != "return" || e.errOutcome(p) == errYes {
			continue
		}
		why := c.headListOf(e, p, p.ret(0))
		c.check(why == "", "heads-listed", fnName(c, fn), p.Pos, p, "the list of heads is wrong: %s", why)
	}
	c.atLeast("heads-listed", 1, "lists of heads")
}

func (c *Ctx) activeHeads() {
	fn := c.root("chains", "Linkage", "ActiveHeads")
	if fn == nil {
		return
	}
	paths, e := c.paths(fn)
	name := fnName(c, fn)
	for _, p := range paths {
		if p.Kind != "return" || e.errOutcome(p) == errYes {
			continue
		}
		why := c.activeHeadsPath(e, p, p.ret(0), name)
		c.check(why == "", "active-heads", name, p.Pos, p, "the list of heads in use is wrong: %s", why)
	}
	c.atLeast("active-heads", 1, "lists of heads in use")
}

func (c *Ctx) activeHeadsPath(e *Engine, p *Path, list *Term, name string) string {
	ev, elems, why := listOf(e, p, list)
	if ev == nil {
		return why
	}
	var heads *Term
	for bi, b := range ev.Loop.Bodies {
		has := 0
		for _, f := range b.own() {
			a := f.Atom
			if a.Op != "has" && !(a.Op == "lookup" && isBoolT(a)) {
				continue
			}
			l, i, fl, ok := elemField(a.Args[1])
			if !ok || fl != "BlockID" || !i.is("iter", ev.Loop.ID) {
				continue
			}
			if heads != nil && heads != l {
				return "two lists of heads are mixed"
			}
			heads = l
			if w := c.leashSet(e, p, a.Args[0], name); w != "" {
				return w
			}
			has = sign(f.Val)
		}
		el := elems[bi]
		switch {
		case has == 0:
			return "whether a peer is leashed to the block of a head is not looked at"
		case has == 1 && el == nil:
			return "a head some peer is leashed to is left out"
		case has == -1 && el != nil:
			return "a head no peer is leashed to is listed"
		}
		if el == nil {
			continue
		}
		if whole(el, heads, e.tt.mk("iter", ev.Loop.ID, types.Typ[types.Int])) {
			continue
		}
		for _, f := range []string{"ID", "BlockID"} {
			l, i, fl, ok := elemField(structField(el, f))
			if !ok || l != heads || fl != f || !i.is("iter", ev.Loop.ID) {
				return "a listed head differs from the stored one"
			}
		}
	}
	if heads == nil || !runsOver(e, p, ev, heads) {
		return "not every head is considered"
	}
	if w := c.headListOf(e, p, heads); w != "" {
		return w
	}
	return ""
}

// runsOver: the loop visits every element of the list.
func runsOver(e *Engine, p *Path, ev *Event, list *Term) bool {
	if exhausted(e, p, ev, list) {
		return true
	}
	if list.Op != "mkslice" {
		return false
	}
	for _, f := range p.Facts[min(ev.NFacts, len(p.Facts)):] {
		a := f.Atom
		if !f.Val && a.Op == "lt" && a.Args[0].is("iter", ev.Loop.ID) && a.Args[1] == list.Args[0] {
			return true
		}
	}
	return false
}

func isBoolT(t *Term) bool {
	b, ok := t.Typ.(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// leashSet checks that the keys of map m are exactly the blocks of all leashes.
func (c *Ctx) leashSet(e *Engine, p *Path, m *Term, name string) string {
	if m.Op != "mkmap" {
		return "the set of leashed blocks is not built from the leashes"
	}
	n := 0
	for _, ev := range p.Events {
		switch ev.Kind {
		case "mapset", "mapdel":
			if ev.Args[0] == m {
				return "the set of leashed blocks is changed outside the visit of the leashes"
			}
		case "loop":
			var over *Term
			hit, miss := false, false
			for _, b := range ev.Loop.Bodies {
				k := 0
				for _, x := range b.Events {
					if (x.Kind == "mapset" || x.Kind == "mapdel") && x.Args[0] == m {
						what, ov := c.leashSource(e, p, ev, x.Args[1])
						if x.Kind == "mapdel" || what != "id" {
							return "the set holds other blocks than those of the leashes"
						}
						if isBoolTyp(x.Args[2]) {
							if v, ok := x.Args[2].boolVal(); !ok || !v {
								return "a leashed block is not in the set"
							}
						}
						over = ov
						k++
					}
				}
				hit = hit || k > 0
				miss = miss || k == 0
			}
			if !hit {
				continue
			}
			n++
			if miss {
				return "a leash is not looked at"
			}
			if over == nil || !exhausted(e, p, ev, over) {
				return "not all leashes are looked at"
			}
			if src, _ := loopOfPhi(p, over); src == nil && !c.iterRange(e, p, over, 3) {
				return "not all leashes are read"
			}
		}
	}
	if n != 1 {
		return "the set of leashed blocks is not built from the leashes"
	}
	return ""
}

func isBoolTyp(t *Term) bool {
	if t == nil || t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

const longFork = 5 // blocks above the last common block that make a fork long

func (c *Ctx) forkCounts() {
	fn, paths, e := c.reportPaths("Stats")
	if fn == nil {
		return
	}
	name := fnName(c, fn)
	for _, p := range paths {
		if p.Kind != "return" || e.errOutcome(p) == errYes {
			continue
		}
		why := c.forkCountsPath(e, p, fn, name)
		c.check(why == "", "fork-counts", name, p.Pos, p, "the numbers of short and long forks are wrong: %s", why)
	}
	c.atLeast("fork-counts", 1, "counts of forks")
}

func (c *Ctx) forkCountsPath(e *Engine, p *Path, fn *ssa.Function, name string) string {
	res := p.ret(0)
	type counter struct {
		ev *Event
		v  loopVar
	}
	counted := func(f string) (*counter, bool) {
		if res.Op == "havoc" {
			for _, ev := range p.Events {
				if ev.Kind != "loop" {
					continue
				}
				for _, v := range loopVars(e, ev) {
					if v.addr != nil && v.addr.Op == "faddr" && v.addr.Sym == f && e.havoc(ev.Loop.ID, v.addr.Args[0]) == res {
						return &counter{ev, v}, true
					}
				}
			}
			return nil, false
		}
		t := structField(res, f)
		if t == nil {
			return nil, false
		}
		if k, ok := t.int64(); ok && k == 0 {
			return nil, true
		}
		if t.Op == "len" && emptyResult(e, p, t.Args[0]) {
			return nil, true
		}
		for _, ev := range p.Events {
			if ev.Kind != "loop" {
				continue
			}
			for _, v := range loopVars(e, ev) {
				if v.cur == t {
					return &counter{ev, v}, true
				}
			}
		}
		return nil, false
	}
	long, ok1 := counted("Long")
	short, ok2 := counted("Short")
	var all *Term // the list whose length one of the numbers is the rest of
	rest := func(f string, ok bool, o *counter) *counter {
		if t := structField(res, f); !ok && o != nil && t != nil {
			if a, b := minus(t); a != nil && a.Op == "len" && b == o.v.cur {
				all = a.Args[0]
				return o
			}
		}
		return nil
	}
	restLong, restShort := rest("Long", ok1, short), rest("Short", ok2, long)
	if restLong != nil {
		long, ok1 = restLong, true
	}
	if restShort != nil {
		short, ok2 = restShort, true
	}
	if !ok1 || !ok2 {
		return "they are not counted by visiting the forks"
	}
	gs := c.groupings(e, p, name, nil)
	if long == nil && short == nil {
		// nothing to count
		for _, ev := range p.Events {
			if ev.Kind != "loop" {
				continue
			}
			for _, ph := range ev.Loop.Phis {
				if emptyResult(e, p, ph.Term) && c.part().forkListOf(e, p, gs, ph.Term, name) != nil {
					return ""
				}
			}
		}
		return "no forks are counted although there may be some"
	}
	if long == nil || short == nil || long.ev != short.ev {
		return "short and long forks are not counted together"
	}
	ev := long.ev
	for _, v := range []loopVar{long.v, short.v} {
		if v.init == nil {
			return "a count does not start at zero"
		}
		if k, ok := v.init.int64(); !ok || k != 0 {
			return "a count does not start at zero"
		}
	}
	var list *Term
	for bi, b := range ev.Loop.Bodies {
		// what is known of the length
		side := 0
		for _, f := range b.own() {
			for t := range lengthTerms(f.Atom) {
				l, i, _, ok := elemField(t)
				if !ok || !i.is("iter", ev.Loop.ID) {
					continue
				}
				list = l
				iv := e.interval(&State{facts: b.Facts}, t)
				if iv.lo != nil && iv.lo.IsInt64() && iv.lo.Int64() > longFork {
					side = 1
				}
				if iv.hi != nil && iv.hi.IsInt64() && iv.hi.Int64() <= longFork {
					side = -1
				}
			}
		}
		same := func(v loopVar) func(t *Term) bool {
			return func(t *Term) bool {
				if t == nil || t == v.cur {
					return t != nil
				}
				return v.addr != nil && v.addr.Op == "faddr" && t.Op == "field" && t.Sym == v.addr.Sym &&
					t.Args[0] == e.havoc(ev.Loop.ID, v.addr.Args[0])
			}
		}
		one := func(v loopVar) bool { return plusOne(v.next[bi], same(v)) }
		zero := func(v loopVar) bool { return same(v)(v.next[bi]) }
		switch {
		case side == 0:
			return "whether a fork is long is not decided by its length being more than 5 blocks"
		case side == 1 && !((restLong != nil || one(long.v)) && (restShort != nil || zero(short.v))):
			return "a fork of more than 5 blocks is not counted once as long"
		case side == -1 && !((restShort != nil || one(short.v)) && (restLong != nil || zero(long.v))):
			return "a fork of at most 5 blocks is not counted once as short"
		}
	}
	if list == nil {
		return "the forks are not visited"
	}
	base := list
	if base.Op == "sorted" {
		base = base.Args[0]
	}
	if all != nil && all != list && all != base {
		return "the numbers do not add up to the number of forks"
	}
	if !exhausted(e, p, ev, list) && !exhausted(e, p, ev, base) {
		return "not every fork is counted"
	}
	q := c.part()
	defer c.merge(q, "all-leashes", "fork-per-block", "fork-head", "fork-length", "fork-common", "longest")
	fl := q.forkListOf(e, p, gs, base, name)
	if fl == nil {
		return "they do not count the forks of all leashed blocks"
	}
	if emptyResult(e, p, base) {
		return ""
	}
	q.forksFinal(e, p, gs, base, name, fl.initLen)
	return ""
}

// plusOne recognises a sum of a quantity and one.
func plusOne(t *Term, is func(t *Term) bool) bool {
	if t = strip(t); t == nil || t.Op != "bin" || t.Sym != "+" || len(t.Args) != 2 {
		return false
	}
	for i := range t.Args {
		if d, ok := t.Args[i].int64(); ok && d == 1 && is(t.Args[1-i]) {
			return true
		}
	}
	return false
}

func lengthTerms(t *Term) map[*Term]bool {
	r := map[*Term]bool{}
	collect(t, func(x *Term) bool { return endsWithField(x, "Length") }, r)
	return r
}

func (c *Ctx) generatorCounts() {
	fn := c.root("chains", "Linkage", "ForkGenerators")
	if fn == nil {
		return
	}
	paths, e := c.paths(fn)
	name := fnName(c, fn)
	for _, p := range paths {
		if p.Kind != "return" || e.errOutcome(p) == errYes {
			continue
		}
		why := c.generatorsPath(e, p, p.ret(0))
		c.check(why == "", "generator-counts", name, p.Pos, p, "the list of generators is wrong: %s", why)
	}
	c.atLeast("generator-counts", 2, "lists of generators")
}

func (c *Ctx) generatorsPath(e *Engine, p *Path, list *Term) string {
	base := list
	if base.Op == "sorted" {
		base = base.Args[0]
	}
	ev, elems, why := listOf(e, p, base)
	if ev == nil {
		return why
	}
	var m *Term
	for bi, b := range ev.Loop.Bodies {
		var key, val *Term
		for _, f := range b.own() {
			if f.Atom.Op == "more" && f.Val {
				m = f.Atom.Args[0].Args[0]
				key, val = e.tt.mk("mapkey", f.Atom.Sym, nil, m), e.tt.mk("mapval", f.Atom.Sym, nil, m)
			}
		}
		el := elems[bi]
		if m == nil || el == nil {
			return "a generator is left out"
		}
		if strip(structField(el, "Generator")) != key {
			return "an entry names another generator"
		}
		if n := strip(structField(el, "Blocks")); n != val && !(n != nil && isLookup(n, m, key)) {
			return "an entry has another number of blocks than counted"
		}
	}
	if m == nil || !exhausted(e, p, ev, m) {
		return "not every generator is listed"
	}
	if w := c.tallyOf(e, p, m); w != "" {
		return w
	}
	for _, s := range sortEvents(p) {
		if s.Res != nil && s.Res.Op == "sorted" && s.Res.Args[0] == base {
			return c.sortedBy(e, s, []orderKey{{what: "number of blocks", is: func(t *Term) bool { return endsWithField(t, "Blocks") }}})
		}
	}
	return "it is not sorted"
}

// tallyOf checks that m counts the elements of one list, one for each.
func (c *Ctx) tallyOf(e *Engine, p *Path, m *Term) string {
	if m.Op != "mkmap" {
		return "the blocks are not counted into a fresh table"
	}
	n := 0
	for _, ev := range p.Events {
		switch ev.Kind {
		case "mapset", "mapdel":
			if ev.Args[0] == m {
				return "the table is changed outside the count"
			}
		case "loop":
			hit, miss := false, false
			var list *Term
			for _, b := range ev.Loop.Bodies {
				k := 0
				for _, x := range b.Events {
					if (x.Kind != "mapset" && x.Kind != "mapdel") || x.Args[0] != m {
						continue
					}
					k++
					if x.Kind == "mapdel" {
						return "a count is dropped"
					}
					if !plusOne(x.Args[2], func(t *Term) bool { return isLookup(t, m, x.Args[1]) }) {
						return "a block is not counted as one more block of its generator"
					}
					gk := strip(x.Args[1])
					if l, i, _, ok := elemField(gk); ok && i.is("iter", ev.Loop.ID) {
						list = l
					} else if (gk.Op == "index" || gk.Op == "iaddr") && gk.Args[1].is("iter", ev.Loop.ID) {
						list = gk.Args[0]
					} else {
						return "a block is counted for another generator"
					}
				}
				if k > 1 {
					return "a block is counted twice"
				}
				hit = hit || k > 0
				miss = miss || k == 0
			}
			if !hit {
				continue
			}
			n++
			if miss {
				return "a block is not counted"
			}
			if list == nil || !exhausted(e, p, ev, list) && !(list.Op == "append" && exhausted(e, p, ev, list)) {
				return "not every block is counted"
			}
		}
	}
	if n == 0 && noBlocks(e, p) {
		return ""
	}
	if n != 1 {
		return "the blocks are not counted once"
	}
	return ""
}

// noBlocks: a list of blocks that was collected turned out to be empty.
func noBlocks(e *Engine, p *Path) bool {
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		for _, ph := range ev.Loop.Phis {
			if l, ok := typOr(ph.Term).Underlying().(*types.Slice); ok && isNamed(l.Elem(), "chains", "Block") && emptyResult(e, p, ph.Term) {
				return true
			}
		}
	}
	return false
}
