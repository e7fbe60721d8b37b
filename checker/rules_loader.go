package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the loader: choosing a peer, driving its loading, drawing the consequences of its end ----

// isSlot recognises the address of the cell that holds the current loading.
func isSlot(a *Term) bool {
	return a != nil && a.Op == "faddr" && isLoading(deref(typOr(a)))
}

func isLoading(T types.Type) bool {
	p, ok := types.Unalias(T).(*types.Pointer)
	return ok && isNamed(p.Elem(), "loading", "peerLoader")
}

// slotFact tells what a fact says about the current loading: 1 there is none, -1 there is one.
func slotFact(f Fact) int {
	a := f.Atom
	if a.Op != "eq" {
		return 0
	}
	for i := 0; i < 2; i++ {
		x, n := a.Args[i], a.Args[1-i]
		if n.Op == "nil" && x.Op != "alloc" && x.Typ != nil && isLoading(x.Typ) {
			return sign(f.Val)
		}
	}
	return 0
}

func slotEmpty(facts []Fact) int {
	r := 0
	for _, f := range facts {
		if k := slotFact(f); k != 0 {
			r = k
		}
	}
	return r
}

type loaderRoot struct {
	fn    *ssa.Function
	paths []*Path
	e     *Engine
	name  string
}

func (c *Ctx) loaderRoots() []loaderRoot {
	var r []loaderRoot
	for _, rt := range c.runtimeRoots("loading") {
		ps, e := c.runtimePaths(rt)
		r = append(r, loaderRoot{rt.fn, ps, e, fnName(c, rt.fn)})
	}
	return r
}

// levels visits the paths and the paths of loop bodies and goroutines.
func levels(paths []*Path, f func(p *Path)) {
	var rec func(p *Path)
	rec = func(p *Path) {
		f(p)
		for _, ev := range p.Events {
			if ev.Loop != nil {
				for _, b := range ev.Loop.Bodies {
					rec(b)
				}
			}
			for _, b := range ev.Bodies {
				rec(b)
			}
		}
	}
	for _, p := range paths {
		rec(p)
	}
}

func callsOn(p *Path, f func(ev *Event) bool) []*Event {
	var r []*Event
	for _, ev := range p.Events {
		if f(ev) {
			r = append(r, ev)
		}
	}
	return r
}

// received gives the channel a path received from last at its own level, and the value.
func receivedFrom(p *Path) (ch, val *Term, at *Event) {
	for _, ev := range p.Events {
		if (ev.Kind == "select" || ev.Kind == "recv") && ev.Res != nil && ev.Res.Op == "recv" {
			ch, val, at = ev.Res.Args[0], ev.Res, ev
		}
	}
	return
}

// lagging: a loading is started for a connected peer picked at random among all that announced a score higher than the
// score of their leash.
func (c *Ctx) lagging(m *fsm) {
	starts := 0
	for _, r := range c.loaderRoots() {
		e := r.e
		walk(r.paths, func(s site) {
			ev := s.ev
			if ev.Kind != "store" || len(ev.Args) < 2 || !isSlot(ev.Args[0]) || isNilOrZero(ev.Args[1]) {
				return
			}
			starts++
			c.check(slotEmpty(s.facts()) > 0, "chosen", r.name, ev.Pos, s.path, "a loading replaces another one that has not ended")
			if !c.check(len(ev.Vals) > 1 && ev.Vals[1].Op == "struct", "chosen", r.name, ev.Pos, s.path, "the loading started is not a new one") {
				return
			}
			st := ev.Vals[1]
			who := typedField(st, func(T types.Type) bool { return isNamed(T, "peers", "HistoryRequester") })
			list, elem := pickedFrom(who)
			if !c.check(list != nil, "chosen", r.name, ev.Pos, s.path, "the peer loaded from is %v instead of one of the peers lagging", who) {
				return
			}
			idx := elem.Args[1]
			c.check(strings.Contains(callName(idx), "rand.") && len(idx.Args) > 0 && lenOf(idx.Args[len(idx.Args)-1]) == list,
				"random", r.name, ev.Pos, s.path, "the peer is not picked at random among all that are lagging")
			why := c.lagList(e, s.path, list)
			c.check(why == "", "chosen", r.name, ev.Pos, s.path, "of the peers to pick from: %s", why)
			hp := typedField(st, func(T types.Type) bool { return isNamed(T, "chains", "HistoryProvider") })
			c.check(hp != nil && unface(hp).Op == "load" && isNamed(typOr(unface(hp)), "chains", "Linkage"), "chosen", r.name, ev.Pos, s.path, "the loading works on %v", hp)
			// restarted from the common block after ten failures, otherwise started from the leash
			sm := typedField(st, func(T types.Type) bool { return isNamed(T, "stateless", "StateMachine") })
			restarted, started, reset := false, false, false
			after := false
			for _, x := range s.path.Events {
				after = after || x == ev
				if k, ok := fired(x); ok && after && x.Args[0] == sm {
					restarted = restarted || k == m.restart
					started = started || k == m.start || k == m.restart
				}
				if isCounter(x) && (x.Kind == "mapdel" || x.Args[2].isInt(0)) {
					reset = true
				}
			}
			c.check(started || restarted, "begun", r.name, ev.Pos, s.path, "the loading is not begun")
			for _, n := range []int64{0, 1, 5, 9, 10, 11, 25} {
				for mode := 0; mode < 3; mode++ {
					if mode < 2 && n != 0 {
						continue
					}
					if !e.feasible(s.path.Facts, counterIs(n, mode)) {
						continue
					}
					c.check(restarted == (n >= 10), "restart", r.name, ev.Pos, s.path, "after %d failures in a row: loaded again from the common block: %v", n, restarted)
				}
			}
			c.check(!restarted || reset, "restart", r.name, ev.Pos, s.path, "the failures are not forgotten when the loading starts over")
		})
		levels(r.paths, func(p *Path) {
			conns := callsOn(p, func(ev *Event) bool { return isCall(ev, "(*peers.Registry).Connections") })
			if len(conns) == 0 || len(callsOn(p, func(ev *Event) bool { return ev.Kind == "store" && isSlot(ev.Args[0]) })) > 0 {
				return
			}
			ok := false
			for _, ev := range conns {
				ok = ok || e.knownNonNil(p.Facts, e.extErr(ev.Res, 1))
			}
			for _, f := range p.own() {
				l := emptyFact(f)
				if l == nil {
					continue
				}
				for _, ev := range conns {
					ok = ok || l == e.extErr(ev.Res, 0)
				}
				ok = ok || c.lagList(e, p, l) == ""
			}
			c.check(ok, "chosen", r.name, p.Pos, p, "no loading is started although peers are lagging")
		})
	}
	c.atLeast("chosen", 4, "choices of a peer")
	c.check(starts > 0, "chosen", "loading", 0, nil, "no loading is ever started")
}

// isInt tells whether the term is the given number.
func (t *Term) isInt(n int64) bool {
	k, ok := t.int64()
	return ok && k == n
}

func lenOf(t *Term) *Term {
	t = strip(t)
	if t != nil && t.Op == "len" {
		return t.Args[0]
	}
	return nil
}

// emptyFact recognises the fact that a list has no elements.
func emptyFact(f Fact) *Term {
	a := f.Atom
	switch {
	case a.Op == "eq" && f.Val:
		for i := 0; i < 2; i++ {
			if l := lenOf(a.Args[i]); l != nil && a.Args[1-i].isInt(0) {
				return l
			}
		}
	case a.Op == "lt" && !f.Val && a.Args[0].isInt(0):
		return lenOf(a.Args[1])
	case a.Op == "lt" && f.Val && a.Args[1].isInt(1):
		return lenOf(a.Args[0])
	}
	return nil
}

// pickedFrom recognises a peer given as an element of a list.
func pickedFrom(t *Term) (list, elem *Term) {
	t = unface(t)
	if t == nil {
		return nil, nil
	}
	for t.Op == "ref" || t.Op == "load" {
		t = t.Args[0]
	}
	if t.Op == "index" || t.Op == "iaddr" {
		return t.Args[0], t
	}
	return nil, nil
}

// lagList checks that a list holds the connected peers that announced a score higher than that of their leash.
func (c *Ctx) lagList(e *Engine, p *Path, list *Term) string {
	d := listDefOf(e, p, list)
	if d == nil {
		return "the list is not built in a known way"
	}
	it := e.tt.mk("iter", d.ev.Loop.ID, types.Typ[types.Int])
	var src *Term
	for _, b := range d.ev.Loop.Bodies {
		for _, f := range b.own() {
			if a := f.Atom; a.Op == "lt" && f.Val && a.Args[0] == it && a.Args[1].Op == "len" {
				src = a.Args[1].Args[0]
			}
		}
	}
	if src == nil || !exhausted(e, p, d.ev, src) {
		return "peers can be left out at the end"
	}
	if src.Op != "ext" || src.Sym != "0" || callName(src.Args[0]) != "(*peers.Registry).Connections" {
		return "the peers do not come from the list of connections"
	}
	isScore := func(t *Term) bool {
		l, i, f, ok := elemField(t)
		return ok && l == src && i == it && f == "Score"
	}
	leash := func(t *Term, sym string) bool {
		if t == nil || t.Op != "ext" || t.Sym != sym || callName(t.Args[0]) != "(*chains.Linkage).LeashScore" {
			return false
		}
		x := t.Args[0]
		base, _ := addrBase(x.Args[1])
		l, i, f, ok := elemField(base)
		return ok && l == src && i == it && f == "AddressPort"
	}
	for i, b := range d.ev.Loop.Bodies {
		for _, noScore := range []bool{true, false} {
			for _, failed := range []bool{true, false} {
				for score := int64(0); score < 2; score++ {
					for own := int64(0); own < 2; own++ {
						v := func(t *Term) (int64, bool) {
							switch {
							case isScore(t):
								return score, true
							case leash(t, "0"):
								return own, true
							case t.Op == "eq" && t.Args[1].Op == "nil" && isScore(t.Args[0]):
								return boolNum(noScore), true
							case t.Op == "eq" && t.Args[1].Op == "nil" && leash(t.Args[0], "1"):
								return boolNum(!failed), true
							}
							return 0, false
						}
						if !e.feasible(b.own(), v) {
							continue
						}
						want := !noScore && !failed && score > own
						switch {
						case want && d.elems[i] == nil:
							return "a lagging peer can be left out"
						case !want && d.elems[i] != nil:
							return "a peer that is not lagging can be listed"
						case want && !whole(d.elems[i], src, it):
							return "an entry is not the peer"
						}
					}
				}
			}
		}
	}
	return ""
}

func boolNum(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// isCounterMap recognises the map that counts failures by peer.
func isCounterMap(t *Term) bool {
	if t == nil || t.Typ == nil {
		return false
	}
	mt, ok := deref(t.Typ).Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := mt.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && isNamed(mt.Key(), "netip", "Addr")
}

// isCounter recognises a change of the number of failures of a peer.
func isCounter(ev *Event) bool {
	return (ev.Kind == "mapset" || ev.Kind == "mapdel") && isCounterMap(ev.Args[0])
}

// counterIs is the valuation for n failures. mode 0: no map; 1: no entry; 2: an entry.
func counterIs(n int64, mode int) valuation {
	return func(t *Term) (int64, bool) {
		switch {
		case t.Op == "eq" && t.Args[1].Op == "nil" && isCounterMap(t.Args[0]):
			return boolNum(mode == 0), true
		case t.Op == "has" && isCounterMap(t.Args[0]):
			return boolNum(mode == 2), true
		case t.Op == "lookup" && isCounterMap(t.Args[0]):
			return n, true
		}
		return 0, false
	}
}

// ---- C16: the end of a loading ----

func runC16(c *Ctx) {
	m := c.machine()
	if m == nil {
		return
	}
	m.protocol("conclude")
	asking, _, _ := m.step(m.initial, m.start)
	loading, _, _ := m.step(asking, m.ids)
	done, _, _ := m.step(loading, m.timeout)
	seen := map[*ssa.Function]bool{}
	for _, s := range m.order() {
		for _, ev := range []int64{m.start, m.restart, m.ids, m.block, m.tick, m.timeout, m.ready} {
			_, acts, _ := m.step(s, ev)
			for _, f := range acts {
				if !seen[f] {
					seen[f] = true
					c.action(m, f, ev)
				}
			}
		}
	}
	for _, f := range []struct {
		s, ev int64
	}{{asking, m.tick}, {loading, m.tick}} {
		if fn := m.action(f.s, f.ev, func(a *actInfo) bool { return a.fires[m.timeout] }); fn != nil {
			c.timedOut(m, fn)
		}
	}
	c.atLeast("reported", 2, "reports")
	c.atLeast("timed", 3, "requests and decisions about time")
	c.concluded(m, "OK", m.initial)
	c.concluded(m, "Fail", done)
	c.atLeast("concluded", 8, "consequences of the end of a loading")
	c.reporter(m)
	c.ticks(m)
}

// action checks the reports an action makes and the clock it sets.
func (c *Ctx) action(m *fsm, fn *ssa.Function, trigger int64) {
	a := m.info(fn)
	e := a.e
	name := fnName(c, fn)
	for _, p := range a.paths {
		if p.Kind != "return" {
			c.check(p.Kind != "panic", "reported", name, p.Pos, p, "the end of a loading is lost")
			continue
		}
		n := 0
		asked := false
		walkPath(p, nil, nil, p, func(s site) {
			if isReport(s.ev, "OK") || isReport(s.ev, "Fail") {
				n++
				c.check(len(s.inLoop) == 0, "reported", name, s.ev.Pos, s.path, "the end of a loading is reported repeatedly")
			}
			asked = asked || isCallSuffix(s.ev, "HistoryRequester).RequestBlockIDs", "HistoryRequester).RequestBlock")
			if k, ok := fired(s.ev); ok {
				c.check(len(s.inLoop) == 0, "reported", name, s.ev.Pos, s.path, "event %d is fired repeatedly", k)
			}
		})
		if a.ok || a.fail {
			c.check(n == 1, "reported", name, p.Pos, p, "the end of a loading is reported %d times", n)
			c.check(e.errOutcome(p) == errNo, "reported", name, p.Pos, p, "an error is returned by a loading that reported its end")
		}
		if asked && e.errOutcome(p) != errYes {
			c.check(nowStored(p), "timed", name, p.Pos, p, "the time waited for an answer is not counted from the request")
		}
		set := false
		walkPath(p, nil, nil, p, func(s site) { set = set || isClockStore(s.ev) })
		c.check(!set || asked, "timed", name, p.Pos, p, "the time waited for an answer starts over although nothing was requested")
	}
}

func isClockStore(ev *Event) bool {
	return ev.Kind == "store" && ev.Args[0].Op == "faddr" && isNamed(deref(typOr(ev.Args[0])), "time", "Time")
}

// timedOut: the loading ends when the answer takes longer than a fixed time.
func (c *Ctx) timedOut(m *fsm, fn *ssa.Function) {
	a := m.info(fn)
	e := a.e
	name := fnName(c, fn)
	// the time passed since the request, compared with a limit
	limit := func(f Fact) (passed bool, ok bool) {
		at := f.Atom
		if at.Op == "lt" {
			if isPassed(at.Args[1]) {
				if n, k := at.Args[0].int64(); k && n > 0 {
					return f.Val, true
				}
			}
			if isPassed(at.Args[0]) {
				if n, k := at.Args[1].int64(); k && n > 0 {
					return !f.Val, true
				}
			}
		}
		if callName(at) == "(time.Time).After" || callName(at) == "(time.Time).Before" {
			x, y := at.Args[0], at.Args[1]
			if callName(at) == "(time.Time).Before" {
				x, y = y, x
			}
			if isTickTime(x) && isDeadline(y) {
				return f.Val, true
			}
			if isTickTime(y) && isDeadline(x) {
				return !f.Val, true
			}
		}
		return false, false
	}
	for _, p := range a.paths {
		if p.Kind != "return" {
			continue
		}
		fires := len(callsOn(p, func(ev *Event) bool { k, ok := fired(ev); return ok && k == m.timeout }))
		passed, known := false, false
		for _, f := range p.Facts {
			if b, ok := limit(f); ok {
				passed, known = b, true
			}
		}
		if e.errOutcome(p) == errYes && fires == 0 {
			// only a wrong argument
			wrong := false
			for _, f := range p.Facts {
				wrong = wrong || f.Atom.Op == "istype" && !f.Val
			}
			c.check(wrong, "timed", name, p.Pos, p, "the time waited is not looked at")
			continue
		}
		if !c.check(known, "timed", name, p.Pos, p, "the time waited since the request is not looked at") {
			continue
		}
		c.check(passed == (fires == 1) && fires <= 1, "timed", name, p.Pos, p, "the time is up: %v, the loading ends: %v", passed, fires == 1)
	}
}

func isClock(t *Term) bool {
	t = strip(t)
	return t != nil && t.Op == "load" && t.Args[0].Op == "faddr" && isNamed(typOr(t), "time", "Time")
}

// isTickTime recognises the current time: the time that came with the tick.
func isTickTime(t *Term) bool {
	t = strip(t)
	return t != nil && (callName(t) == "time.Now" || t.Op == "typeassert" && isNamed(typOr(t), "time", "Time"))
}

func isPassed(t *Term) bool {
	t = strip(t)
	switch callName(t) {
	case "(time.Time).Sub":
		return isTickTime(t.Args[0]) && isClock(t.Args[1])
	case "time.Since":
		return isClock(t.Args[0])
	}
	return false
}

func isDeadline(t *Term) bool {
	t = strip(t)
	if callName(t) != "(time.Time).Add" || !isClock(t.Args[0]) {
		return false
	}
	n, ok := t.Args[1].int64()
	return ok && n > 0
}

// concluded: the loader draws the consequences of a reported end, and only of a real one.
func (c *Ctx) concluded(m *fsm, what string, state int64) {
	fn := c.root("loading", "Loader", what)
	if fn == nil {
		return
	}
	paths, e := c.loadingPaths(fn)
	name := fnName(c, fn)
	for _, p := range paths {
		if p.Kind != "return" {
			continue
		}
		var released, other, begun bool
		var counted []*Event
		var diff *Term
		diffSet, reset := false, false
		walkPath(p, nil, nil, p, func(s site) {
			ev := s.ev
			switch {
			case ev.Kind == "store" && isSlot(ev.Args[0]):
				if isNilOrZero(ev.Args[1]) {
					released = true
				} else {
					other = true
				}
			case isCounter(ev):
				counted = append(counted, ev)
			case ev.Kind == "store" && ev.Args[0].Op == "faddr" && isBigPtr(deref(typOr(ev.Args[0]))):
				diffSet, diff = true, ev.Args[1]
			}
			if k, ok := fired(ev); ok {
				begun = begun || k == m.start
				other = other || k != m.start
			}
		})
		_ = reset
		empty, inState := slotEmpty(p.Facts), 0
		for _, f := range p.Facts {
			if k := inStateFact(f, state); k != 0 {
				inState = k
			}
		}
		if empty > 0 || inState < 0 {
			c.check(!released && !other && !begun && len(counted) == 0 && !diffSet, "concluded", name, p.Pos, p, "a report has consequences although no loading ended")
			continue
		}
		if !c.check(empty < 0, "concluded", name, p.Pos, p, "a report has consequences although nothing is loaded") {
			continue
		}
		c.check(!other, "concluded", name, p.Pos, p, "the end of a loading has other consequences")
		if what == "Fail" {
			c.check(released && !begun, "concluded", name, p.Pos, p, "a loading that failed is not given up")
			ok := len(counted) > 0
			var last *Term
			for _, ev := range counted {
				ok = ok && ev.Kind == "mapset" && loaderPeer(strip(ev.Args[1]))
				if ok {
					last = ev.Args[2]
				}
			}
			if c.check(ok, "counted", name, p.Pos, p, "a failure of the peer is not counted") {
				for _, n := range []int64{0, 3, 9} {
					for mode := 0; mode < 3; mode++ {
						if mode < 2 && n != 0 || !e.feasible(p.Facts, counterIs(n, mode)) {
							continue
						}
						k, known := e.evalNum(last, counterIs(n, mode))
						c.check(known && k == n+1, "counted", name, p.Pos, p, "failure number %d of the peer is counted as %v", n+1, last)
					}
				}
			}
			continue
		}
		// OK
		okc := false
		for _, ev := range counted {
			okc = (ev.Kind == "mapdel" || ev.Args[2].isInt(0)) && loaderPeer(strip(ev.Args[1]))
		}
		c.check(okc, "counted", name, p.Pos, p, "failures before a success are not forgotten")
		c.stillLagging(e, p, name, released, begun, diffSet, diff)
	}
}

func isBigPtr(T types.Type) bool {
	p, ok := T.(*types.Pointer)
	return ok && isNamed(p.Elem(), "big", "Int")
}

// inStateFact tells what a fact says about the stage of the loading.
func inStateFact(f Fact, state int64) int {
	a := f.Atom
	if a.Op == "eq" {
		for i := 0; i < 2; i++ {
			x := strip(a.Args[i])
			if x.Op == "ext" {
				x = x.Args[0]
			}
			n := callName(x)
			if (n == smPrefix+"MustState" || n == smPrefix+"State") && strip(a.Args[1-i]).isInt(state) {
				return sign(f.Val)
			}
		}
	}
	if n := callName(a); n == smPrefix+"IsInState" || a.Op == "ext" && callName(a.Args[0]) == smPrefix+"IsInState" {
		x := a
		if a.Op == "ext" {
			x = a.Args[0]
		}
		if len(x.Args) > 1 && unface(x.Args[1]).isInt(state) {
			return sign(f.Val)
		}
	}
	return 0
}

// stillLagging: after a success the same peer goes on when it still lags behind its announced score and the last round
// made a difference; otherwise it is released.
func (c *Ctx) stillLagging(e *Engine, p *Path, name string, released, begun, diffSet bool, diff *Term) {
	isScore := func(t *Term) bool {
		return t != nil && t.Op == "field" && t.Sym == "Score" && t.Args[0].Op == "ext" && t.Args[0].Sym == "0" && callName(t.Args[0].Args[0]) == "(*peers.Registry).Peer" &&
			loaderPeer(strip(t.Args[0].Args[0].Args[1]))
	}
	call := func(t *Term, fn, sym string) bool {
		return t != nil && t.Op == "ext" && t.Sym == sym && callName(t.Args[0]) == fn && len(t.Args[0].Args) > 1 && loaderPeer(strip(t.Args[0].Args[1]))
	}
	isOwn := func(t *Term) bool { return call(t, "(*chains.Linkage).LeashScore", "0") }
	isPrev := func(t *Term) bool {
		return t != nil && t.Op == "load" && t.Args[0].Op == "faddr" && isBigPtr(typOr(t)) && t.Args[0].Args[0].Op != "ext"
	}
	isDiff := func(t *Term) bool {
		return t != nil && t.Op == "bigop" && t.Sym == "Sub" && len(t.Args) == 2 && isScore(t.Args[0]) && isOwn(t.Args[1])
	}
	for _, peerErr := range []bool{false, true} {
		for _, leashErr := range []bool{false, true} {
			for score := int64(0); score < 3; score++ {
				for own := int64(0); own < 3; own++ {
					for prev := int64(-1); prev < 3; prev++ { // -1: none
						v := func(t *Term) (int64, bool) {
							switch {
							case isScore(t):
								return score, true
							case isOwn(t):
								return own, true
							case isDiff(t):
								return score - own, true
							case isPrev(t) && prev >= 0:
								return prev, true
							case t.Op == "eq" && t.Args[1].Op == "nil" && isPrev(t.Args[0]):
								return boolNum(prev < 0), true
							case t.Op == "eq" && t.Args[1].Op == "nil" && call(t.Args[0], "(*peers.Registry).Peer", "1"):
								return boolNum(!peerErr), true
							case t.Op == "eq" && t.Args[1].Op == "nil" && call(t.Args[0], "(*chains.Linkage).LeashScore", "1"):
								return boolNum(!leashErr), true
							}
							return 0, false
						}
						if !e.feasible(p.Facts, v) {
							continue
						}
						goOn := !peerErr && !leashErr && score > own && prev != score-own
						if !c.check(begun == goOn && released == !goOn, "concluded", name, p.Pos, p,
							"lookups failed: %v, %v; announced score %d, score of the leash %d, lag before this round %d (-1: none): goes on: %v, released: %v",
							peerErr, leashErr, score, own, prev, begun, released) {
							return
						}
						if goOn {
							c.check(diffSet && isDiff(strip(diff)), "concluded", name, p.Pos, p, "the lag left is not remembered for the next round")
						} else {
							c.check(diffSet && isNilOrZero(diff), "concluded", name, p.Pos, p, "the lag of a released peer is kept for the next one")
						}
					}
				}
			}
		}
	}
}

// reporter: the loading reports to the loader that started it.
func (c *Ctx) reporter(m *fsm) {
	for _, r := range c.loaderRoots() {
		walk(r.paths, func(s site) {
			ev := s.ev
			if ev.Kind != "store" || len(ev.Args) < 2 || !isSlot(ev.Args[0]) || isNilOrZero(ev.Args[1]) || len(ev.Vals) < 2 {
				return
			}
			rep := typedField(ev.Vals[1], func(T types.Type) bool { return isNamed(T, "loading", "Reporter") })
			c.check(rep != nil && unface(rep) == ev.Args[0].Args[0], "reporter", r.name, ev.Pos, s.path, "the loading reports to %v", rep)
			sm := typedField(ev.Vals[1], func(T types.Type) bool { return isNamed(T, "stateless", "StateMachine") })
			started, ticking := false, false
			after := false
			for _, x := range s.path.Events {
				after = after || x == ev
				if k, ok := fired(x); ok && after && x.Args[0] == sm {
					started = started || k == m.start || k == m.restart
				}
				if isCallSuffix(x, "Timer).Reset", "Ticker).Reset") {
					if n, ok := x.Args[1].int64(); ok && n > 0 {
						ticking = true
					}
				}
			}
			c.check(started, "reporter", r.name, ev.Pos, s.path, "a new loading is not started and keeps its place for ever")
			c.check(ticking, "reporter", r.name, ev.Pos, s.path, "no time is measured for the loading")
		})
	}
	c.atLeast("reporter", 3, "new loadings")
}

// ticks: the running loading is told the time on every tick.
func (c *Ctx) ticks(m *fsm) {
	for _, r := range c.loaderRoots() {
		tickers := map[*Term]bool{}
		levels(r.paths, func(p *Path) {
			ch, _, _ := receivedFrom(p)
			for range callsOn(p, func(ev *Event) bool { k, ok := fired(ev); return ok && k == m.tick }) {
				if ch != nil {
					tickers[ch] = true
				}
			}
		})
		levels(r.paths, func(p *Path) {
			ch, _, at := receivedFrom(p)
			if ch == nil || !tickers[ch] {
				return
			}
			evs := callsOn(p, func(ev *Event) bool { k, ok := fired(ev); return ok && k == m.tick })
			c.check(len(evs) > 0 || slotEmpty(p.Facts) > 0, "ticks", r.name, at.Pos, p, "a running loading is not told the time")
			for _, ev := range evs {
				as := firedArgs(ev)
				c.check(len(as) == 1 && callName(as[0]) == "time.Now", "ticks", r.name, ev.Pos, p, "the loading is told %v instead of the current time", as)
			}
			rearmed, after := false, false
			for _, ev := range p.Events {
				after = after || ev == at
				if after && isCallSuffix(ev, "Timer).Reset", "Ticker).Reset") && timerOf(ch) == ev.Args[0] {
					n, ok := ev.Args[1].int64()
					rearmed = ok && n > 0
				}
			}
			c.check(rearmed || isRepeating(ch), "ticks", r.name, at.Pos, p, "no further tick follows")
		})
	}
	c.atLeast("ticks", 3, "ticks")
}

// timerOf gives the timer whose channel is given.
func timerOf(ch *Term) *Term {
	switch {
	case ch == nil:
		return nil
	case ch.Op == "load" && ch.Args[0].Op == "faddr" && ch.Args[0].Sym == "C":
		return ch.Args[0].Args[0]
	case ch.Op == "field" && ch.Sym == "C":
		return ch.Args[0]
	}
	return nil
}

func isRepeating(ch *Term) bool {
	t := timerOf(ch)
	return t != nil && isNamed(typOr(t), "time", "Ticker")
}

// ---- C17: a loading only reacts to the peer it loads from ----

func runC17(c *Ctx) {
	m := c.machine()
	if m == nil {
		return
	}
	m.protocol("only")
	c.eventArgs(m)
	for _, what := range []struct {
		ev  int64
		pkg string
	}{{m.ids, "IDsPackage"}, {m.block, "BlockPackage"}} {
		c.delivered(m, what.ev, what.pkg)
	}
	c.atLeast("delivered", 8, "received answers")
	// no other event reaches the machine from outside
	for _, r := range c.loaderRoots() {
		if m.acts[r.fn] != nil {
			continue
		}
		walk(r.paths, func(s site) {
			k, ok := fired(s.ev)
			if !isCall(s.ev, smPrefix+"Fire", smPrefix+"FireCtx") {
				return
			}
			c.check(ok && (k == m.start || k == m.restart || k == m.ids || k == m.block || k == m.tick), "outside", r.name, s.ev.Pos, s.path, "the stage of a loading is changed from outside")
		})
	}
}

// eventArgs: what comes with an event is what the machine and its actions expect.
func (c *Ctx) eventArgs(m *fsm) {
	seen := map[[2]int64]bool{}
	for _, s := range m.order() {
		for _, ev := range []int64{m.start, m.restart, m.ids, m.block, m.tick, m.timeout, m.ready} {
			_, acts, _ := m.step(s, ev)
			for _, f := range acts {
				a := m.info(f)
				want := m.params[ev]
				name := fnName(c, f)
				var used []*Term
				grab := func(t *Term) bool {
					if (t.Op == "typeassert" || t.Op == "istype") && strip(t.Args[0]).Op == "index" && t.Args[0].Args[0].Typ != nil && isAnySlice(t.Args[0].Args[0].Typ) {
						used = append(used, t)
					}
					return false
				}
				for _, p := range a.paths {
					for _, fa := range p.Facts {
						fa.Atom.any(grab)
					}
					walkPath(p, nil, nil, p, func(s site) {
						for _, x := range s.ev.Args {
							x.any(grab)
						}
						if s.ev.Kind == "bounds" && len(s.ev.Args) > 0 && s.ev.Args[0].Typ != nil && isAnySlice(s.ev.Args[0].Typ) {
							c.check(want != nil, "arguments", name, s.ev.Pos, p, "an argument is read that does not come with event %d", ev)
						}
					})
				}
				for _, u := range used {
					if u.Op == "typeassert" {
						c.check(want != nil && types.Identical(u.Typ, want), "arguments", name, m.path.Pos, m.path, "the argument of event %d is taken for a %v", ev, u.Typ)
					}
				}
			}
		}
		_ = seen
	}
	for _, r := range c.loaderRoots() {
		walk(r.paths, func(s site) {
			k, ok := fired(s.ev)
			if !ok {
				return
			}
			as := firedArgs(s.ev)
			want := m.params[k]
			if want == nil {
				c.check(len(as) == 0, "arguments", r.name, s.ev.Pos, s.path, "event %d is fired with arguments", k)
				return
			}
			c.check(len(as) == 1 && as[0].Typ != nil && types.Identical(as[0].Typ, want), "arguments", r.name, s.ev.Pos, s.path, "event %d is fired with %v instead of a %v", k, as, want)
		})
	}
	c.atLeast("arguments", 8, "arguments of events")
}

func isAnySlice(T types.Type) bool {
	s, ok := T.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	i, ok := s.Elem().Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// delivered: an answer reaches the loading exactly when it comes from its peer.
func (c *Ctx) delivered(m *fsm, event int64, pkg string) {
	for _, r := range c.loaderRoots() {
		if m.acts[r.fn] != nil {
			continue
		}
		levels(r.paths, func(p *Path) {
			ch, val, at := receivedFrom(p)
			isPkg := ch != nil && isNamed(typOr(val), "loading", pkg)
			evs := callsOn(p, func(ev *Event) bool { k, ok := fired(ev); return ok && k == event })
			if !isPkg {
				for _, ev := range evs {
					c.check(false, "delivered", r.name, ev.Pos, p, "something else than a received answer is given to the loading")
				}
				return
			}
			isWho := func(t *Term) bool { return t.Op == "field" && t.Args[0] == val && isNamed(typOr(t), "netip", "Addr") }
			isWhat := func(t *Term) bool { return t.Op == "field" && t.Args[0] == val && !isNamed(typOr(t), "netip", "Addr") }
			same, empty := 0, 0
			closed := false
			slot := slotEmpty(p.Facts)
			for _, f := range p.own() {
				a := f.Atom
				if a.Op == "eq" {
					for i := 0; i < 2; i++ {
						if isWho(a.Args[i]) && loaderPeer(strip(a.Args[1-i])) {
							same = sign(f.Val)
						}
					}
				}
				if l := emptyFact(f); l != nil && isWhat(l) {
					empty = 1
				}
				if l := emptyFact(Fact{Atom: a, Val: !f.Val}); l != nil && isWhat(l) {
					empty = -1
				}
				if a.Op == "recvok" && !f.Val {
					closed = true
				}
				if a.Op == "eq" && a.Args[1].Op == "nil" && isWhat(a.Args[0]) && f.Val {
					empty = 1
				}
			}
			if len(evs) == 0 {
				c.check(closed || slot > 0 || same < 0 || empty > 0, "delivered", r.name, at.Pos, p, "an answer of the peer is lost")
				return
			}
			c.check(len(evs) == 1, "delivered", r.name, evs[0].Pos, p, "an answer is given to the loading %d times", len(evs))
			ev := evs[0]
			c.check(slot < 0, "delivered", r.name, ev.Pos, p, "an answer is taken although nothing is loaded")
			c.check(same > 0, "delivered", r.name, ev.Pos, p, "an answer is taken from a peer that is not the one loaded from")
			as := firedArgs(ev)
			c.check(len(as) == 1 && isWhat(as[0]), "delivered", r.name, ev.Pos, p, "the loading is given %v", as)
			if event == m.ids {
				c.check(empty < 0, "delivered", r.name, ev.Pos, p, "an empty list of block IDs is taken for an answer")
			}
		})
	}
}
