package main

import (
	"go/types"
	"math/big"
	"strings"
)

// A prover decides order between integer terms: identical terms up to a constant, the facts known at the point, the
// bounds that follow from the form of a term, counters that only grow or only shrink.
type prover struct {
	e     *Engine
	phis  map[*Term]*LoopPhi
	loops map[string]*Event
	busy  map[*Term]bool
	bound func(facts []Fact, t *Term) (lo, hi *big.Int) // bounds known from elsewhere
}

func newProver(e *Engine, paths []*Path) *prover {
	p := &prover{e: e, phis: map[*Term]*LoopPhi{}, loops: map[string]*Event{}, busy: map[*Term]bool{}}
	walk(paths, func(s site) {
		if s.ev.Kind == "loop" {
			p.loops[s.ev.Loop.ID] = s.ev
			for _, ph := range s.ev.Loop.Phis {
				p.phis[ph.Term] = ph
			}
		}
	})
	return p
}

// split takes the constant off a sum.
func (p *prover) split(facts []Fact, t *Term, depth int) (*Term, int64) {
	if t.Op == "bin" && t.Sym == "+" && len(t.Args) == 2 {
		if n, ok := t.Args[1].int64(); ok {
			if n < 0 && t.Typ != nil && unsigned(t.Typ) && !p.atLeast(facts, t.Args[0], -n, depth-1) {
				return t, 0
			}
			return t.Args[0], n
		}
	}
	return t, 0
}

func (p *prover) atLeast(facts []Fact, t *Term, n int64, depth int) bool {
	lo := p.low(facts, t, depth)
	return lo != nil && lo.Cmp(big.NewInt(n)) >= 0
}

func (p *prover) low(facts []Fact, t *Term, depth int) *big.Int {
	if depth <= 0 {
		return nil
	}
	best := p.e.interval(&State{facts: facts}, t).lo
	up := func(b *big.Int) {
		if b != nil && (best == nil || b.Cmp(best) > 0) {
			best = b
		}
	}
	if p.bound != nil {
		lo, _ := p.bound(facts, t)
		up(lo)
	}
	switch t.Op {
	case "bin":
		a, b := t.Args[0], t.Args[1]
		switch t.Sym {
		case "+":
			if n, ok := b.int64(); ok && n < 0 && t.Typ != nil && unsigned(t.Typ) && !p.atLeast(facts, a, -n, depth-1) {
				break
			}
			x, y := p.low(facts, a, depth-1), p.low(facts, b, depth-1)
			if x != nil && y != nil {
				up(new(big.Int).Add(x, y))
			}
		case "/", ">>", "%", "*":
			x, y := p.low(facts, a, depth-1), p.low(facts, b, depth-1)
			if x != nil && y != nil && x.Sign() >= 0 && y.Sign() >= 0 {
				up(new(big.Int))
			}
		case "-":
			if p.le(facts, b, a, 0, depth-1) {
				up(new(big.Int))
			}
		}
	case "call", "ucall":
		name := t.Sym
		if i := strings.IndexByte(name, '#'); i >= 0 {
			name = name[:i]
		}
		switch name[strings.LastIndexByte(name, '.')+1:] {
		case "BitLen", "IntN", "Intn", "Size", "Len":
			up(new(big.Int))
		}
	case "conv":
		if isInt(t.Args[0]) && widening(t.Args[0].Typ, t.Typ) {
			up(p.low(facts, t.Args[0], depth-1))
		}
	case "minmax":
		var m *big.Int
		all := true
		for _, a := range t.Args {
			x := p.low(facts, a, depth-1)
			if x == nil {
				all = false
				continue
			}
			if strings.HasPrefix(t.Sym, "max") {
				up(x)
			} else if m == nil || x.Cmp(m) < 0 {
				m = x
			}
		}
		if all && !strings.HasPrefix(t.Sym, "max") {
			up(m)
		}
	case "loopphi":
		if p.drift(t) > 0 {
			up(p.low(nil, p.phis[t].Init, depth-1))
		}
	}
	return best
}

func (p *prover) high(facts []Fact, t *Term, depth int) *big.Int {
	if depth <= 0 {
		return nil
	}
	best := p.e.interval(&State{facts: facts}, t).hi
	down := func(b *big.Int) {
		if b != nil && (best == nil || b.Cmp(best) < 0) {
			best = b
		}
	}
	if p.bound != nil {
		_, hi := p.bound(facts, t)
		down(hi)
	}
	switch t.Op {
	case "bin":
		x, y := p.high(facts, t.Args[0], depth-1), p.high(facts, t.Args[1], depth-1)
		switch t.Sym {
		case "+":
			if n, ok := t.Args[1].int64(); ok && n < 0 && t.Typ != nil && unsigned(t.Typ) && !p.atLeast(facts, t.Args[0], -n, depth-1) {
				break
			}
			if x != nil && y != nil {
				down(new(big.Int).Add(x, y))
			}
		case "/", ">>":
			if x != nil && p.atLeast(facts, t.Args[0], 0, depth-1) && p.atLeast(facts, t.Args[1], 0, depth-1) {
				down(x)
			}
		case "*":
			if x != nil && y != nil && p.atLeast(facts, t.Args[0], 0, depth-1) && p.atLeast(facts, t.Args[1], 0, depth-1) {
				down(new(big.Int).Mul(x, y))
			}
		case "%":
			if y != nil && y.Sign() > 0 {
				down(y)
			}
		}
	case "conv":
		if isInt(t.Args[0]) && widening(t.Args[0].Typ, t.Typ) {
			down(p.high(facts, t.Args[0], depth-1))
		}
	case "minmax":
		var m *big.Int
		all := true
		for _, a := range t.Args {
			x := p.high(facts, a, depth-1)
			if x == nil {
				all = false
				continue
			}
			if strings.HasPrefix(t.Sym, "min") {
				down(x)
			} else if m == nil || x.Cmp(m) > 0 {
				m = x
			}
		}
		if all && !strings.HasPrefix(t.Sym, "min") {
			down(m)
		}
	case "loopphi":
		if p.drift(t) < 0 {
			down(p.high(nil, p.phis[t].Init, depth-1))
		}
	}
	if t.Typ != nil && isIntType(t.Typ) {
		if s := sizeOf(t.Typ); s < 64 {
			if !unsigned(t.Typ) {
				s--
			}
			down(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(s)), big.NewInt(1)))
		}
	}
	return best
}

// drift tells that a loop variable never goes below (1) or above (-1) its first value.
func (p *prover) drift(t *Term) int {
	ph := p.phis[t]
	if ph == nil || len(ph.Backs) == 0 {
		return 0
	}
	up, down := true, true
	for _, b := range ph.Backs {
		x, n := b, int64(0)
		if b.Op == "bin" && b.Sym == "+" && len(b.Args) == 2 {
			if k, ok := b.Args[1].int64(); ok {
				x, n = b.Args[0], k
			}
		}
		if x != t {
			return 0
		}
		up, down = up && n >= 0, down && n <= 0
	}
	switch {
	case up:
		return 1
	case down:
		return -1
	}
	return 0
}

// le: a <= b + k.
func (p *prover) le(facts []Fact, a, b *Term, k int64, depth int) bool {
	if depth <= 0 {
		return false
	}
	x, i := p.split(facts, a, depth)
	y, j := p.split(facts, b, depth)
	k += j - i
	if x == y || p.sameLen(x, y) {
		return k >= 0
	}
	if hi, lo := p.high(facts, x, 4), p.low(facts, y, 4); hi != nil && lo != nil &&
		hi.Cmp(new(big.Int).Add(lo, big.NewInt(k))) <= 0 {
		return true
	}
	// what x is at most
	type edge struct {
		t *Term
		w int64
	}
	var es []edge
	for _, f := range facts {
		at := f.Atom
		if len(at.Args) != 2 {
			continue
		}
		l, li := p.split(nil, at.Args[0], 1)
		r, ri := p.split(nil, at.Args[1], 1)
		switch {
		case at.Op == "lt" && f.Val && l == x:
			es = append(es, edge{r, ri - li - 1})
		case at.Op == "lt" && !f.Val && r == x:
			es = append(es, edge{l, li - ri})
		case at.Op == "eq" && f.Val && isInt(at.Args[0]):
			if l == x {
				es = append(es, edge{r, ri - li})
			} else if r == x {
				es = append(es, edge{l, li - ri})
			}
		}
	}
	switch x.Op {
	case "call", "ucall":
		name := x.Sym
		if c := strings.IndexByte(name, '#'); c >= 0 {
			name = name[:c]
		}
		name = name[strings.LastIndexByte(name, '.')+1:]
		if (name == "IntN" || name == "Intn") && len(x.Args) > 0 {
			es = append(es, edge{x.Args[len(x.Args)-1], -1})
		}
	case "minmax":
		if strings.HasPrefix(x.Sym, "min") {
			for _, m := range x.Args {
				es = append(es, edge{m, 0})
			}
		}
	case "bin":
		switch x.Sym {
		case "/", ">>":
			if p.atLeast(facts, x.Args[0], 0, 4) && p.atLeast(facts, x.Args[1], 0, 4) {
				es = append(es, edge{x.Args[0], 0})
			}
		case "%":
			if p.atLeast(facts, x.Args[1], 1, 4) {
				es = append(es, edge{x.Args[1], -1})
			}
		case "-":
			if p.le(facts, x.Args[1], x.Args[0], 0, depth-1) {
				es = append(es, edge{x.Args[0], 0})
			}
		}
	case "conv":
		if isInt(x.Args[0]) && (widening(x.Args[0].Typ, x.Typ) || p.atLeast(facts, x.Args[0], 0, 4) && !unsigned(x.Typ)) {
			es = append(es, edge{x.Args[0], 0})
		}
	case "iter":
		if n := p.rangedMap(facts, x); n != nil {
			es = append(es, edge{n, -1})
		}
	case "loopphi":
		if p.drift(x) < 0 {
			es = append(es, edge{p.phis[x].Init, 0})
		}
	}
	for _, ed := range es {
		if p.le(facts, ed.t, y, k-ed.w, depth-1) {
			return true
		}
	}
	// what y is at least
	for _, f := range facts {
		at := f.Atom
		if len(at.Args) != 2 || at.Op != "lt" && at.Op != "eq" {
			continue
		}
		l, li := p.split(nil, at.Args[0], 1)
		r, ri := p.split(nil, at.Args[1], 1)
		switch {
		case at.Op == "lt" && f.Val && r == y: // l+li < y+ri
			if p.le(facts, x, l, k+li+1-ri, depth-2) {
				return true
			}
		case at.Op == "lt" && !f.Val && l == y: // r+ri <= y+li
			if p.le(facts, x, r, k+ri-li, depth-2) {
				return true
			}
		case at.Op == "eq" && f.Val && isInt(at.Args[0]) && (l == y || r == y):
			if r == y {
				l, li, r, ri = r, ri, l, li
			}
			if p.le(facts, x, r, k+ri-li, depth-2) {
				return true
			}
		}
	}
	if x.Op == "loopphi" && p.phis[x] != nil && !p.busy[x] && p.inductive(x, y, k, depth-1) {
		return true
	}
	switch y.Op {
	case "minmax":
		if strings.HasPrefix(y.Sym, "min") {
			ok := true
			for _, m := range y.Args {
				ok = ok && p.le(facts, x, m, k, depth-1)
			}
			return ok
		}
		for _, m := range y.Args {
			if p.le(facts, x, m, k, depth-1) {
				return true
			}
		}
	case "bin":
		if y.Sym == "+" && len(y.Args) == 2 {
			if p.atLeast(facts, y.Args[1], 0, 4) && p.le(facts, x, y.Args[0], k, depth-1) ||
				p.atLeast(facts, y.Args[0], 0, 4) && p.le(facts, x, y.Args[1], k, depth-1) {
				return true
			}
		}
	case "len":
		switch l := y.Args[0]; l.Op {
		case "append":
			ln := p.e.lenOf(l.Args[0], nil, &State{facts: facts})
			if ln != y && p.le(facts, x, ln, k+int64(len(l.Args)-1), depth-1) {
				return true
			}
		case "loopphi":
			// a list that grows in every iteration is at least as long as there were iterations
			ph := p.phis[l]
			if ph == nil {
				break
			}
			grows := len(ph.Backs) > 0
			for _, b := range ph.Backs {
				g := grownBy(b, l)
				grows = grows && g > 0
			}
			if grows && p.le(facts, x, p.e.tt.mk("iter", phiLoop(l), types.Typ[types.Int]), k, depth-1) {
				return true
			}
		}
	case "conv":
		if isInt(y.Args[0]) && widening(y.Args[0].Typ, y.Typ) && p.le(facts, x, y.Args[0], k, depth-1) {
			return true
		}
	case "loopphi":
		if p.drift(y) > 0 && p.le(facts, x, p.phis[y].Init, k, depth-1) {
			return true
		}
	}
	return false
}

// sameLen: the lengths of two lists that one loop grows together.
func (p *prover) sameLen(a, b *Term) bool {
	if a.Op != "len" || b.Op != "len" {
		return false
	}
	x, y := p.phis[a.Args[0]], p.phis[b.Args[0]]
	if x == nil || y == nil || len(x.Backs) != len(y.Backs) {
		return false
	}
	find := func(ph *LoopPhi) *Event {
		for _, l := range p.loops {
			for _, q := range l.Loop.Phis {
				if q == ph {
					return l
				}
			}
		}
		return nil
	}
	if l := find(x); l == nil || l != find(y) {
		return false
	}
	if p.e.lenOf(x.Init, nil, &State{}) != p.e.lenOf(y.Init, nil, &State{}) {
		return false
	}
	for i := range x.Backs {
		g, h := grownBy(x.Backs[i], x.Term), grownBy(y.Backs[i], y.Term)
		if g < 0 || g != h {
			return false
		}
	}
	return true
}

// rangedMap gives the size of the map the iterations of which a counter counts.
func (p *prover) rangedMap(facts []Fact, it *Term) *Term {
	l := p.loops[it.Sym]
	if l == nil {
		return nil
	}
	var m *Term
	for _, b := range l.Loop.Bodies {
		if b.Kind != "back" {
			continue
		}
		var found *Term
		for _, f := range b.own() {
			if f.Val && f.Atom.Op == "more" && len(f.Atom.Args) > 0 {
				found = mapOf(f.Atom)
				break
			}
		}
		if found == nil || m != nil && m != found {
			return nil
		}
		m = found
	}
	if m == nil {
		return nil
	}
	changed := false
	walk(l.Loop.Bodies, func(s site) {
		if (s.ev.Kind == "mapset" || s.ev.Kind == "mapdel") && s.ev.Args[0] == m {
			changed = true
		}
	})
	if changed {
		return nil
	}
	// Only in an iteration, not after the last one.
	for _, f := range facts {
		if f.Val && f.Atom.Op == "more" && len(f.Atom.Args) > 0 && mapOf(f.Atom) == m {
			return p.e.tt.mk("len", "", types.Typ[types.Int], m)
		}
	}
	return nil
}

// grownBy tells how many elements were appended to a list to get another, -1 if it was not made so.
func grownBy(t, from *Term) int {
	n := 0
	for t != from {
		if t.Op != "append" {
			return -1
		}
		n += len(t.Args) - 1
		t = t.Args[0]
	}
	return n
}

// phiLoop is the loop a variable belongs to.
func phiLoop(t *Term) string {
	s := t.Sym
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		s = s[:i]
	}
	return s
}

// mapOf is the map a "more" condition iterates over.
func mapOf(more *Term) *Term {
	m := more.Args[0]
	if m.Op == "range" {
		m = m.Args[0]
	}
	return m
}

// inductive: x <= y + k for a loop variable x, at the start of every iteration: it holds at the first one and is kept.
func (p *prover) inductive(x, y *Term, k int64, depth int) bool {
	if depth <= 0 {
		return false
	}
	ph := p.phis[x]
	var l *LoopInfo
	for _, ev := range p.loops {
		for _, q := range ev.Loop.Phis {
			if q == ph {
				l = ev.Loop
			}
		}
	}
	if l == nil {
		return false
	}
	p.busy[x] = true
	defer delete(p.busy, x)
	at := func(mem func(a *Term) *Term, phi func(*LoopPhi) *Term) *Term {
		m := map[*Term]*Term{}
		for _, a := range l.Mod {
			if v := mem(a); v != nil {
				m[p.e.havoc(l.ID, a)] = v
			}
		}
		for _, q := range l.Phis {
			m[q.Term] = phi(q)
		}
		return p.subst(y, m)
	}
	first := at(func(a *Term) *Term { return l.Before[a] }, func(q *LoopPhi) *Term { return q.Init })
	if !p.le(nil, ph.Init, first, k, depth) {
		return false
	}
	n := 0
	for _, b := range l.Bodies {
		if b.Kind != "back" {
			continue
		}
		i := n
		n++
		if i >= len(ph.Backs) {
			return false
		}
		next := at(func(a *Term) *Term { return b.St.mem[a] }, func(q *LoopPhi) *Term { return q.Backs[i] })
		// the claim holds at the start of the iteration
		facts := append(b.Facts[:len(b.Facts):len(b.Facts)], Fact{Atom: p.e.lt(p.e.addConst(y, k, y.Typ), x), Val: false})
		if !p.le(facts, ph.Backs[i], next, k, depth) {
			return false
		}
	}
	return n > 0
}

// subst replaces terms in the length of a field of a changing object.
func (p *prover) subst(t *Term, m map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	as := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		as[i] = p.subst(a, m)
		same = same && as[i] == a
	}
	if same {
		return t
	}
	switch t.Op {
	case "field":
		return p.e.fieldOf(as[0], t.Sym, t.Typ)
	case "len":
		return p.e.lenOf(as[0], t.Typ, &State{})
	}
	return p.e.tt.mk(t.Op, t.Sym, t.Typ, as...)
}
