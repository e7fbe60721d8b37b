package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the state machine of a loading ----

type fsmState struct {
	entry    []fsmAction
	permit   map[int64]int64
	internal map[int64]*ssa.Function
	ignore   map[int64]bool
	ev       *Event
}

type fsmAction struct {
	from int64 // trigger, -1 for any
	fn   *ssa.Function
}

type fsm struct {
	c       *Ctx
	name    string
	path    *Path
	initial int64
	states  map[int64]*fsmState
	params  map[int64]types.Type
	// roles
	start, restart, ids, block, tick int64
	timeout, ready                   int64
	acts                             map[*ssa.Function]*actInfo
}

// actInfo summarises an action of the machine.
type actInfo struct {
	paths []*Path
	e     *Engine
	fires map[int64]bool
	ok    bool // reports success on some path
	fail  bool
	asks  bool // asks for IDs
	reqs  bool // requests blocks
	puts  bool // stores blocks
}

func (c *Ctx) loadingPaths(fn *ssa.Function) ([]*Path, *Engine) {
	return c.runtimePaths(rtRoot{fn, "loading"})
}

const smPrefix = "(*stateless.StateMachine)."

// fired recognises a trigger being fired.
func fired(ev *Event) (int64, bool) {
	if !isCall(ev, smPrefix+"Fire", smPrefix+"FireCtx") {
		return 0, false
	}
	i := 1
	if strings.HasSuffix(ev.Fn, "Ctx") {
		i = 2
	}
	if i >= len(ev.Args) {
		return 0, false
	}
	return unface(ev.Args[i]).int64()
}

// firedArgs gives the arguments a trigger is fired with.
func firedArgs(ev *Event) []*Term {
	a := ev.Args[len(ev.Args)-1]
	if a.Op == "list" {
		r := make([]*Term, len(a.Args))
		for i := range a.Args {
			r[i] = unface(a.Args[i])
		}
		return r
	}
	return nil
}

// machine reads the state machine from the constructor.
func (c *Ctx) machine() *fsm {
	fn := c.root("loading", "", "newPeerLoader")
	if fn == nil {
		return nil
	}
	paths, e := c.loadingPaths(fn)
	name := fnName(c, fn)
	var m *fsm
	for _, p := range paths {
		if p.Kind != "return" {
			continue
		}
		if !c.check(m == nil, "machine", name, p.Pos, p, "the machine is configured in more than one way") {
			return nil
		}
		m = &fsm{c: c, name: name, path: p, states: map[int64]*fsmState{}, params: map[int64]types.Type{}, acts: map[*ssa.Function]*actInfo{}, initial: -1}
		conf := map[*Term]int64{}
		for _, ev := range p.Events {
			if ev.Kind != "call" || !strings.Contains(ev.Fn, "stateless.") {
				continue
			}
			bad := func(what string) { c.check(false, "machine", name, ev.Pos, p, "%s", what) }
			switch ev.Fn {
			case "stateless.NewStateMachine":
				if k, ok := unface(ev.Args[0]).int64(); ok {
					m.initial = k
				}
				continue
			case smPrefix + "SetTriggerParameters":
				if k, ok := unface(ev.Args[1]).int64(); ok && ev.Args[2].Op == "list" && len(ev.Args[2].Args) == 1 {
					if t := ev.Args[2].Args[0]; callName(t) == "reflect.TypeOf" && t.Args[0].Typ != nil && t.Args[0].Op != "nil" {
						m.params[k] = t.Args[0].Typ
					}
				}
				continue
			case smPrefix + "Configure":
				k, ok := unface(ev.Args[1]).int64()
				if !ok {
					bad("an unknown state is configured")
					return nil
				}
				conf[ev.Res] = k
				if m.states[k] == nil {
					m.states[k] = &fsmState{permit: map[int64]int64{}, internal: map[int64]*ssa.Function{}, ignore: map[int64]bool{}, ev: ev}
				}
				continue
			}
			k, ok := conf[ev.Args[0]]
			if !ok {
				bad(ev.Fn + " is not understood")
				return nil
			}
			conf[ev.Res] = k
			st := m.states[k]
			num := func(i int) int64 {
				n, ok := unface(ev.Args[i]).int64()
				if !ok {
					bad("an unknown trigger or state is configured")
					return -2
				}
				return n
			}
			act := func(i int) *ssa.Function {
				f, _ := e.resolve(ev.Args[i])
				f = c.p.unwrap(f)
				if f == nil || f.Blocks == nil {
					bad("an action is not known")
					return nil
				}
				return f
			}
			guarded := func(i int) {
				if i < len(ev.Args) && !isNilOrZero(ev.Args[i]) && !(ev.Args[i].Op == "list" && len(ev.Args[i].Args) == 0) {
					bad("a transition is guarded")
				}
			}
			switch strings.TrimPrefix(ev.Fn, "(*stateless.StateConfiguration).") {
			case "Permit":
				st.permit[num(1)] = num(2)
				guarded(3)
			case "Ignore":
				st.ignore[num(1)] = true
				guarded(2)
			case "InternalTransition":
				if f := act(2); f != nil {
					st.internal[num(1)] = f
				}
				guarded(3)
			case "OnEntry":
				if f := act(1); f != nil {
					st.entry = append(st.entry, fsmAction{-1, f})
				}
			case "OnEntryFrom":
				if f := act(2); f != nil {
					st.entry = append(st.entry, fsmAction{num(1), f})
				}
			default:
				bad(ev.Fn + " is not understood")
				return nil
			}
		}
	}
	if !c.check(m != nil && m.initial >= 0 && m.states[m.initial] != nil, "machine", name, 0, nil, "the state machine of a loading is not configured") {
		return nil
	}
	// roles: triggers are known by the operations that fire them, and by what actions do
	role := func(op string) int64 {
		f := c.root("loading", "peerLoader", op)
		if f == nil {
			return -1
		}
		k := int64(-1)
		ps, _ := c.loadingPaths(f)
		walk(ps, func(s site) {
			if n, ok := fired(s.ev); ok {
				if k >= 0 && k != n {
					c.check(false, "machine", fnName(c, f), s.ev.Pos, s.path, "two different events are fired")
				}
				k = n
			}
		})
		c.check(k >= 0, "machine", fnName(c, f), 0, nil, "no event is fired")
		return k
	}
	m.start, m.ids, m.block, m.tick = role("start"), role("processIDs"), role("processBlock"), role("processTick")
	m.restart, m.timeout, m.ready = -1, -1, -1
	for k, st := range m.states {
		_ = k
		for _, a := range st.entry {
			if a.from >= 0 && a.from != m.start && m.info(a.fn).asks {
				m.restart = a.from
			}
		}
	}
	one := func(fires map[int64]bool) int64 {
		for k := range fires {
			return k
		}
		return -1
	}
	for _, k := range m.order() {
		for ev, f := range m.states[k].internal {
			switch ev {
			case m.tick:
				m.timeout = one(m.info(f).fires)
			case m.block:
				m.ready = one(m.info(f).fires)
			}
		}
	}
	return m
}

func (m *fsm) order() []int64 {
	var r []int64
	for k := range m.states {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (m *fsm) info(fn *ssa.Function) *actInfo {
	if a := m.acts[fn]; a != nil {
		return a
	}
	a := &actInfo{fires: map[int64]bool{}}
	m.acts[fn] = a
	a.paths, a.e = m.c.loadingPaths(fn)
	walk(a.paths, func(s site) {
		if k, ok := fired(s.ev); ok {
			a.fires[k] = true
		}
		a.ok = a.ok || isReport(s.ev, "OK")
		a.fail = a.fail || isReport(s.ev, "Fail")
		a.asks = a.asks || isCallSuffix(s.ev, "HistoryRequester).RequestBlockIDs")
		a.reqs = a.reqs || isCallSuffix(s.ev, "HistoryRequester).RequestBlock")
		a.puts = a.puts || isCallSuffix(s.ev, "HistoryProvider).PutBlock")
	})
	return a
}

func isReport(ev *Event, what string) bool { return isCallSuffix(ev, ".Reporter)."+what) }

// step gives what happens when an event is fired in a state.
func (m *fsm) step(s, ev int64) (next int64, acts []*ssa.Function, handled bool) {
	st := m.states[s]
	if st == nil {
		return s, nil, false
	}
	if f := st.internal[ev]; f != nil {
		return s, []*ssa.Function{f}, true
	}
	if n, ok := st.permit[ev]; ok {
		if d := m.states[n]; d != nil && n != s {
			for _, a := range d.entry {
				if a.from < 0 || a.from == ev {
					acts = append(acts, a.fn)
				}
			}
		}
		return n, acts, true
	}
	return s, nil, st.ignore[ev]
}

// protocol checks the stages of a loading. part selects the obligations that belong to a property.
func (m *fsm) protocol(part string) {
	c := m.c
	in := func(parts string) bool { return strings.Contains(parts, part) }
	ck := func(parts string, holds bool, f string, a ...any) bool {
		if in(parts) {
			return c.check(holds, "stages", m.name, m.path.Pos, m.path, f, a...)
		}
		return holds
	}
	idle := m.initial
	asking, acts, _ := m.step(idle, m.start)
	ck("ask conclude", asking != idle && len(acts) == 1 && m.info(acts[0]).asks, "starting a loading does not ask the peer for block IDs")
	if ck("ask", m.restart >= 0, "no event restarts a loading from the common block") {
		n, acts, _ := m.step(idle, m.restart)
		ck("ask conclude", n == asking && len(acts) == 1 && m.info(acts[0]).asks, "restarting a loading does not ask the peer for block IDs")
	}
	loading, acts, _ := m.step(asking, m.ids)
	ck("ask conclude", loading != asking && loading != idle && len(acts) == 1 && m.info(acts[0]).reqs, "received block IDs do not start the request of blocks")
	n, acts, _ := m.step(loading, m.block)
	ck("apply", n == loading && len(acts) == 1 && m.info(acts[0]).puts, "a received block is not taken")
	ck("apply conclude", m.ready >= 0, "nothing tells that all blocks are received")
	back, acts, _ := m.step(loading, m.ready)
	ck("apply conclude", back == idle, "a loading that received all its blocks does not become idle")
	if in("conclude") {
		oks := 0
		for _, a := range acts {
			if m.info(a).ok {
				oks++
			}
		}
		ck("conclude", oks == 1, "a successful loading is reported %d times", oks)
	}
	// every stage that waits for the peer ends by itself
	ck("conclude", m.timeout >= 0, "a loading does not end by itself")
	done := int64(-1)
	for _, s := range []int64{asking, loading} {
		n, acts, _ := m.step(s, m.tick)
		ck("conclude", n == s && len(acts) == 1 && m.info(acts[0]).fires[m.timeout], "time does not end stage %d of a loading", s)
		d, acts, _ := m.step(s, m.timeout)
		fails := 0
		for _, a := range acts {
			if m.info(a).fail {
				fails++
			}
		}
		ck("conclude", d != s && d != idle && fails == 1, "a loading that takes too long in stage %d is reported %d times", s, fails)
		if part == "apply" && s == loading {
			puts := 0
			for _, a := range acts {
				if m.info(a).puts {
					puts++
				}
			}
			ck("apply", puts == 1, "the blocks received before the end of the time are not stored")
		}
		ck("conclude", done < 0 || done == d, "the stages of a loading end differently")
		done = d
	}
	// what does not concern a stage has no effect
	external := []int64{m.start, m.restart, m.ids, m.block, m.tick}
	want := map[[2]int64]bool{
		{idle, m.start}: true, {idle, m.restart}: true, {asking, m.ids}: true, {asking, m.tick}: true, {loading, m.block}: true, {loading, m.tick}: true,
	}
	if in("only") {
		for _, s := range []int64{idle, asking, loading, done} {
			for _, ev := range external {
				n, acts, handled := m.step(s, ev)
				if !want[[2]int64{s, ev}] {
					c.check(n == s && len(acts) == 0, "ignored", m.name, m.path.Pos, m.path, "event %d has an effect in stage %d of a loading although it does not concern it", ev, s)
				}
				c.check(handled, "handled", m.name, m.path.Pos, m.path, "event %d is an error in stage %d of a loading", ev, s)
			}
		}
		n, acts, _ := m.step(loading, m.ids)
		ck("only", n == loading && len(acts) == 0, "a second list of IDs replaces the blocks waited for")
		for _, ev := range []int64{m.timeout, m.ready} {
			n, acts, _ := m.step(done, ev)
			c.check(n == done && len(acts) == 0, "ignored", m.name, m.path.Pos, m.path, "a loading that ended goes on")
			n, acts, _ = m.step(idle, ev)
			c.check(n == idle && len(acts) == 0, "ignored", m.name, m.path.Pos, m.path, "an idle loading ends")
		}
	}
	// reports are made by these actions only, and each event fired by an action is for the stage it runs in
	for _, s := range []int64{idle, asking, loading, done} {
		if m.states[s] == nil {
			continue
		}
		for _, ev := range append(external, m.timeout, m.ready) {
			n, acts, _ := m.step(s, ev)
			for _, a := range acts {
				i := m.info(a)
				if in("conclude") {
					c.check(!i.ok || n == idle && s == loading && ev == m.ready, "reports", fnName(c, a), m.path.Pos, m.path, "success is reported on event %d in stage %d", ev, s)
					c.check(!i.fail || n == done, "reports", fnName(c, a), m.path.Pos, m.path, "failure is reported on event %d in stage %d", ev, s)
				}
				if in("conclude only") {
					for f := range i.fires {
						nn, _, _ := m.step(n, f)
						c.check(nn != n, "fires", fnName(c, a), m.path.Pos, m.path, "event %d fired on event %d in stage %d has no effect", f, ev, s)
					}
				}
			}
		}
	}
}

// roleAction gives the action that runs when an event is fired in the stage.
func (m *fsm) action(s, ev int64, sel func(*actInfo) bool) *ssa.Function {
	_, acts, _ := m.step(s, ev)
	for _, a := range acts {
		if sel(m.info(a)) {
			return a
		}
	}
	return nil
}

// loaderPeer recognises the address of the peer of the loading.
func loaderPeer(t *Term) bool {
	return t != nil && callName(t) == "(peers.HistoryRequester).ID"
}

// nowStored tells whether the path sets a time cell to the current time.
func nowStored(p *Path) bool {
	for _, ev := range p.Events {
		if ev.Kind == "store" && ev.Args[0].Op == "faddr" && len(ev.Args) > 1 {
			v := ev.Args[1]
			if v.Op == "ucall" && callName(v) == "time.Now" {
				return true
			}
		}
	}
	return false
}

// ---- C14: what is asked for ----

func runC14(c *Ctx) {
	m := c.machine()
	if m == nil {
		return
	}
	m.protocol("ask")
	asking, _, _ := m.step(m.initial, m.start)
	if f := m.action(m.initial, m.start, func(a *actInfo) bool { return a.asks }); f != nil {
		c.asked(m, f, ".Leasher).Leash", "the peer's leash")
	}
	if f := m.action(m.initial, m.restart, func(a *actInfo) bool { return a.asks }); f != nil {
		c.asked(m, f, ").LCB", "the last common block")
	}
	if f := m.action(asking, m.ids, func(a *actInfo) bool { return a.reqs }); f != nil {
		c.requested(m, f)
	}
	c.atLeast("asked", 2, "requests of block IDs")
	c.atLeast("requested", 3, "decisions about announced blocks")
	c.lagging(m)
}

// asked: block IDs are asked for back from the given block.
func (c *Ctx) asked(m *fsm, fn *ssa.Function, source, what string) {
	a := m.info(fn)
	e := a.e
	name := fnName(c, fn)
	for _, p := range a.paths {
		if p.Kind != "return" {
			continue
		}
		var asks []*Event
		walkPath(p, nil, nil, p, func(s site) {
			if isCallSuffix(s.ev, "HistoryRequester).RequestBlockIDs") {
				asks = append(asks, s.ev)
				c.check(len(s.inLoop) == 0, "asked", name, s.ev.Pos, s.path, "block IDs are asked for in a loop")
			}
		})
		if len(asks) == 0 {
			c.check(e.errOutcome(p) == errYes, "asked", name, p.Pos, p, "no block IDs are asked for although no error is reported")
			continue
		}
		c.check(len(asks) == 1, "asked", name, p.Pos, p, "block IDs are asked for %d times", len(asks))
		ids := strip(asks[0].Args[1])
		ok := false
		why := fmt.Sprintf("the IDs sent are %v", ids)
		if ids.Op == "ext" && ids.Sym == "0" && strings.HasSuffix(callName(ids.Args[0]), ").LastIDs") {
			call := ids.Args[0]
			from := call.Args[1]
			n, isC := call.Args[2].int64()
			switch {
			case !e.knownNil(p.Facts, e.extErr(call, 1)):
				why = "the error of the walk is ignored"
			case !isC || n != 100:
				why = fmt.Sprintf("%v IDs are sent", call.Args[2])
			case from.Op != "ext" || from.Sym != "0" || !strings.HasSuffix(callName(from.Args[0]), source) || !loaderPeer(from.Args[0].Args[1]):
				why = fmt.Sprintf("the IDs go back from %v instead of %s", from, what)
			case !e.knownNil(p.Facts, e.extErr(from.Args[0], 1)):
				why = "the error of finding where to start is ignored"
			default:
				ok = true
			}
		}
		c.check(ok, "asked", name, asks[0].Pos, p, "block IDs are asked for wrongly: %s", why)
	}
}

// extErr gives result i of a call.
func (e *Engine) extErr(call *Term, i int) *Term {
	return e.tt.mk("ext", fmt.Sprint(i), nil, call)
}

func isIDList(T types.Type) bool {
	if T == nil {
		return false
	}
	s, ok := T.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), "proto", "BlockID")
}

// suffixOf recognises the part of a list from an index on.
func suffixOf(t, list *Term) (from *Term, ok bool) {
	t = strip(t)
	switch {
	case t == list:
		return nil, true
	case t.Op == "slice" && t.Args[0] == list && len(t.Args) > 2 && (t.Args[2].Op == "nil" || t.Args[2].Op == "len" && t.Args[2].Args[0] == list):
		return t.Args[1], true
	case t.Op == "concat" && len(t.Args) == 2 && emptyList(t.Args[0]):
		return suffixOf(t.Args[1], list)
	case callName(t) == "slices.Clone":
		return suffixOf(t.Args[0], list)
	}
	return nil, false
}

// requested: the known blocks of the list move the leash, the rest of the list is requested.
func (c *Ctx) requested(m *fsm, fn *ssa.Function) {
	a := m.info(fn)
	e := a.e
	name := fnName(c, fn)
	for _, p := range a.paths {
		if p.Kind != "return" {
			continue
		}
		var ids *Term
		for _, f := range p.Facts {
			f.Atom.any(func(t *Term) bool {
				if t.Op == "typeassert" && isIDList(t.Typ) {
					ids = t
				}
				return false
			})
		}
		if ids == nil {
			ok := e.errOutcome(p) == errYes
			for _, ev := range p.Events {
				ok = ok && !isCallSuffix(ev, ").RequestBlock")
			}
			c.check(ok, "requested", name, p.Pos, p, "received IDs are not looked at")
			continue
		}
		// the walk over the list
		var loop *Event
		for _, ev := range p.Events {
			if ev.Kind != "loop" {
				continue
			}
			it := e.tt.mk("iter", ev.Loop.ID, types.Typ[types.Int])
			for _, b := range ev.Loop.Bodies {
				for _, s := range b.Events {
					if isCallSuffix(s, ").HasBlock") && len(s.Args) > 1 && isLoopElem(s.Args[1], ids, it) {
						loop = ev
					}
				}
			}
		}
		if !c.check(loop != nil, "requested", name, p.Pos, p, "the announced blocks are not looked up in order") {
			continue
		}
		it := e.tt.mk("iter", loop.Loop.ID, types.Typ[types.Int])
		for _, b := range loop.Loop.Bodies {
			has := c.hasAnnounced(e, b, b.own(), ids, it)
			c.check(has == 1, "requested", name, loop.Pos, b, "a block that is not known to be stored is passed over")
			c.check(c.leashMoved(e, b, ids, it), "requested", name, loop.Pos, b, "the leash is not moved to a block announced by the peer")
		}
		var reqs, fires []site
		walkPath(p, nil, nil, p, func(s site) {
			if isCallSuffix(s.ev, "HistoryRequester).RequestBlock") {
				reqs = append(reqs, s)
			}
			if _, ok := fired(s.ev); ok {
				fires = append(fires, s)
			}
		})
		if exhausted(e, p, loop, ids) {
			c.check(len(reqs) == 0, "requested", name, p.Pos, p, "blocks are requested although all are stored")
			c.check(len(fires) == 1 && len(fires[0].inLoop) == 0, "concluded", name, p.Pos, p, "a loading with nothing to request does not end")
			continue
		}
		has := c.hasAnnounced(e, p, p.Facts[min(loop.Loop.NBase, len(p.Facts)):], ids, it)
		if has != 0 {
			ok := e.errOutcome(p) == errYes && len(reqs) == 0 && len(fires) == 0
			c.check(ok, "requested", name, p.Pos, p, "the announced blocks are not all looked up although nothing failed")
			continue
		}
		// the tail
		infeasible := false
		for _, f := range p.Facts {
			at := f.Atom
			if f.Val && at.Op == "eq" && at.Args[0].Op == "len" && at.Args[1].Op == "const" {
				if from, ok := suffixOf(at.Args[0].Args[0], ids); ok && from == it {
					infeasible = true // the tail holds at least the block that is not stored
				}
			}
		}
		if infeasible {
			continue
		}
		c.check(len(fires) == 0, "requested", name, p.Pos, p, "a loading with blocks to request ends")
		if !c.check(len(reqs) == 1 && len(reqs[0].inLoop) == 1, "requested", name, p.Pos, p, "the missing blocks are not requested one by one") {
			continue
		}
		rl := reqs[0].inLoop[0]
		rit := e.tt.mk("iter", rl.Loop.ID, types.Typ[types.Int])
		var over *Term
		id := reqs[0].ev.Args[1]
		// queue
		qlist, why := c.queueOf(e, p, ids, it)
		c.check(why == "", "queue", name, p.Pos, p, "the blocks waited for are not the missing ones: %s", why)
		if l, ix, _, ok := elemField(id); ok && l == qlist && ix == rit {
			over = qlist
		} else if b := strip(id); b.Op == "load" || b.Op == "index" {
			x := b
			if b.Op == "load" {
				x = b.Args[0]
			}
			if (x.Op == "iaddr" || x.Op == "index") && x.Args[1] == rit {
				if from, ok := suffixOf(x.Args[0], ids); ok && from == it {
					over = x.Args[0]
				}
			}
		}
		ok := over != nil && (exhausted(e, p, rl, over) || over == qlist && exhaustedLen(e, p, rl, qlist))
		c.check(ok, "requested", name, reqs[0].ev.Pos, p, "the blocks requested are not the missing ones: %v", id)
		for _, b := range rl.Loop.Bodies {
			n := 0
			for _, ev := range b.Events {
				if isCallSuffix(ev, "HistoryRequester).RequestBlock") {
					n++
				}
			}
			c.check(n == 1, "requested", name, rl.Pos, b, "a missing block is requested %d times", n)
		}
	}
}

// exhaustedLen: a loop over a list made with the length of another ends with either length.
func exhaustedLen(e *Engine, p *Path, loop *Event, list *Term) bool {
	return list.Op == "mkslice" && list.Args[0].Op == "len" && exhausted(e, p, loop, list.Args[0].Args[0])
}

// hasAnnounced tells whether the block at the position is known to be stored (1), not to be stored (0), or neither (-1).
func (c *Ctx) hasAnnounced(e *Engine, p *Path, facts []Fact, ids, it *Term) int {
	r := -1
	for _, ev := range p.Events {
		if !isCallSuffix(ev, ").HasBlock") || len(ev.Args) < 2 || !isLoopElem(ev.Args[1], ids, it) || ev.Res == nil {
			continue
		}
		if !e.knownNil(facts, e.extErr(ev.Res, 1)) {
			continue
		}
		for _, f := range facts {
			if f.Atom.Op == "ext" && f.Atom.Sym == "0" && f.Atom.Args[0] == ev.Res {
				if f.Val {
					r = 1
				} else {
					r = 0
				}
			}
		}
	}
	return r
}

// leashMoved: the leash of the peer is moved to the announced block, or is there already.
func (c *Ctx) leashMoved(e *Engine, b *Path, ids, it *Term) bool {
	for _, ev := range b.Events {
		if isCallSuffix(ev, ".Leasher).MoveLeash") && isLoopElem(ev.Args[1], ids, it) && loaderPeer(ev.Args[2]) && e.knownNil(b.Facts, ev.Res) {
			return true
		}
		if isCallSuffix(ev, ".Leasher).Leash") && loaderPeer(ev.Args[1]) && e.knownNil(b.Facts, e.extErr(ev.Res, 1)) {
			for _, f := range b.own() {
				if a := f.Atom; a.Op == "eq" && f.Val {
					x, y := a.Args[0], a.Args[1]
					if isLoopElem(y, ids, it) {
						x, y = y, x
					}
					if isLoopElem(x, ids, it) && y.Op == "ext" && y.Sym == "0" && y.Args[0] == ev.Res {
						return true
					}
				}
			}
		}
	}
	return false
}

// typedField gives the value of the only field of the type in a struct term.
func typedField(t *Term, is func(types.Type) bool) *Term {
	if t == nil || t.Op != "struct" || t.Typ == nil {
		return nil
	}
	su, ok := t.Typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < su.NumFields() && i < len(t.Args); i++ {
		if is(su.Field(i).Type()) {
			return t.Args[i]
		}
	}
	return nil
}

func isBlockPtr(T types.Type) bool {
	p, ok := T.(*types.Pointer)
	return ok && isNamed(p.Elem(), "proto", "Block")
}

func isBlockIDType(T types.Type) bool { return isNamed(T, "proto", "BlockID") }

// queueOf checks the queue stored on the path: one entry for every missing block, in order, nothing received yet.
func (c *Ctx) queueOf(e *Engine, p *Path, ids, it *Term) (*Term, string) {
	var q *Term
	for _, ev := range p.Events {
		if ev.Kind == "store" && len(ev.Args) > 1 && ev.Args[0].Op == "faddr" && isNamed(deref(typOr(ev.Args[0])), "loading", "queue") {
			q = ev.Args[1]
		}
		if ev.Kind == "store" && len(ev.Args) > 1 && ev.Args[0].Op == "faddr" && isItems(deref(typOr(ev.Args[0]))) {
			q = ev.Args[1]
		}
	}
	if q == nil {
		return nil, "the queue is not set"
	}
	list := q
	if q.Op == "struct" {
		list = typedField(q, isItems)
	}
	if list == nil {
		return nil, fmt.Sprintf("the queue is %v", q)
	}
	list = strip(list)
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		qi := e.tt.mk("iter", ev.Loop.ID, types.Typ[types.Int])
		check := func(v *Term) string {
			id := v
			if v != nil && v.Op == "struct" {
				id = typedField(v, isBlockIDType)
				if r := typedField(v, isBlockPtr); r != nil && !isNilOrZero(r) {
					return "a block is taken as received"
				}
			}
			if id == nil {
				return "an entry is left out"
			}
			b := strip(id)
			if b.Op == "load" {
				b = b.Args[0]
			}
			if b.Op != "iaddr" && b.Op != "index" || b.Args[1] != qi {
				return fmt.Sprintf("an entry is %v", id)
			}
			from, ok := suffixOf(b.Args[0], ids)
			if !ok || from != it || !exhausted(e, p, ev, b.Args[0]) {
				return fmt.Sprintf("an entry is %v", id)
			}
			return ""
		}
		// built in place
		for _, v := range loopVars(e, ev) {
			if v.addr == nil {
				continue
			}
			x := v.addr
			if x.Op == "faddr" {
				if !isBlockIDType(deref(typOr(x))) {
					continue
				}
				x = x.Args[0]
			}
			if x.Op != "iaddr" || x.Args[0] != list || x.Args[1] != qi {
				continue
			}
			for _, n := range v.next {
				if n == v.cur {
					return list, "an entry is left out"
				}
				if why := check(n); why != "" {
					return list, why
				}
			}
			if list.Op != "mkslice" || list.Args[0].Op != "len" {
				return list, "the queue has another length"
			}
			if from, ok := suffixOf(list.Args[0].Args[0], ids); !ok || from != it {
				return list, "the queue has another length"
			}
			return list, ""
		}
	}
	if d := listDefOf(e, p, list); d != nil {
		for _, el := range d.elems {
			id := typedField(el, isBlockIDType)
			qi := e.tt.mk("iter", d.ev.Loop.ID, types.Typ[types.Int])
			if id == nil {
				return list, "an entry is left out"
			}
			b := strip(id)
			if b.Op == "load" {
				b = b.Args[0]
			}
			if b.Op != "iaddr" && b.Op != "index" || b.Args[1] != qi {
				return list, fmt.Sprintf("an entry is %v", id)
			}
			if from, ok := suffixOf(b.Args[0], ids); !ok || from != it || !exhausted(e, p, d.ev, b.Args[0]) {
				return list, fmt.Sprintf("an entry is %v", id)
			}
		}
		return list, ""
	}
	return list, "it is made in an unknown way"
}

func isItems(T types.Type) bool {
	if T == nil {
		return false
	}
	s, ok := T.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	su, ok := s.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	id, bl := false, false
	for i := 0; i < su.NumFields(); i++ {
		id = id || isBlockIDType(su.Field(i).Type())
		bl = bl || isBlockPtr(su.Field(i).Type())
	}
	return id && bl
}

// ---- C15: applying blocks ----

func runC15(c *Ctx) {
	m := c.machine()
	if m == nil {
		return
	}
	m.protocol("apply")
	asking, _, _ := m.step(m.initial, m.start)
	loading, _, _ := m.step(asking, m.ids)
	if f := m.action(loading, m.block, func(a *actInfo) bool { return a.puts }); f != nil {
		c.received(m, f)
		c.applied(m, f, true)
	}
	if f := m.action(loading, m.timeout, func(a *actInfo) bool { return a.puts }); f != nil {
		c.applied(m, f, false)
	}
	c.atLeast("applied", 4, "applications of blocks")
	c.atLeast("received", 2, "received blocks")
	// nothing else stores blocks or changes the queue
	for _, s := range m.order() {
		st := m.states[s]
		var acts []*ssa.Function
		for _, a := range st.entry {
			acts = append(acts, a.fn)
		}
		for _, f := range st.internal {
			acts = append(acts, f)
		}
		for _, f := range acts {
			i := m.info(f)
			for _, p := range i.paths {
				for _, ev := range p.Events {
					if ev.Kind == "store" && len(ev.Args) > 1 && ev.Args[0].Op == "faddr" && isQueue(deref(typOr(ev.Args[0]))) {
						c.check(i.reqs || i.puts, "queue", fnName(c, f), ev.Pos, p, "the blocks waited for are forgotten")
						if i.puts {
							c.check(clearedQueue(ev.Args[1]), "queue", fnName(c, f), ev.Pos, p, "the blocks waited for become %v", ev.Args[1])
						}
					}
				}
			}
		}
	}
}

func isQueue(T types.Type) bool { return isNamed(T, "loading", "queue") || isItems(T) }

func clearedQueue(v *Term) bool {
	if v == nil {
		return false
	}
	if v.Op == "struct" {
		for _, a := range v.Args {
			if !isNilOrZero(a) && !emptyList(a) {
				return false
			}
		}
		return true
	}
	return isNilOrZero(v) || emptyList(v)
}

// itemField recognises a field of an entry of a queue: the requested ID or the received block.
func itemField(t *Term) (list, idx *Term, block bool, ok bool) {
	l, i, _, k := elemField(t)
	if !k || t.Typ == nil {
		return nil, nil, false, false
	}
	T := strip(t).Typ
	if isBlockPtr(T) {
		return l, i, true, true
	}
	if isBlockIDType(T) {
		return l, i, false, true
	}
	return nil, nil, false, false
}

// idOfBlock recognises the ID of a block given by pointer.
func idOfBlock(t *Term) *Term {
	if t == nil || !strings.HasSuffix(callName(t), ").BlockID") || len(t.Args) < 1 {
		return nil
	}
	b := t.Args[0]
	for len(b.Args) > 0 && (b.Typ == nil || !isBlockPtr(b.Typ)) && (b.Op == "faddr" || b.Op == "field" || b.Op == "load") {
		b = b.Args[0]
	}
	return strip(b)
}

// matches tells what the facts say about whether the requested block of an entry was received: 1 yes, -1 no.
func matches(facts []Fact, list, idx *Term) int {
	r := 0
	for _, f := range facts {
		a := f.Atom
		if a.Op != "eq" {
			continue
		}
		x, y := a.Args[0], a.Args[1]
		if y.Op == "nil" {
			if l, i, b, ok := itemField(x); ok && b && l == list && i == idx && f.Val {
				r = -1
			}
			continue
		}
		for k := 0; k < 2; k++ {
			if l, i, b, ok := itemField(x); ok && !b && l == list && i == idx {
				if bl := idOfBlock(y); bl != nil {
					if l2, i2, b2, ok := itemField(bl); ok && b2 && l2 == list && i2 == idx {
						r = sign(f.Val)
					}
				}
			}
			x, y = y, x
		}
	}
	return r
}

// queueLoops lists the loops of a path over a queue, with the queue.
func queueLoops(e *Engine, p *Path) map[*Event]*Term {
	r := map[*Event]*Term{}
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		it := e.tt.mk("iter", ev.Loop.ID, types.Typ[types.Int])
		look := func(fs []Fact) {
			for _, f := range fs {
				if a := f.Atom; a.Op == "lt" && a.Args[0] == it && a.Args[1].Op == "len" && isItems(typOr(a.Args[1].Args[0])) {
					r[ev] = a.Args[1].Args[0]
				}
			}
		}
		for _, b := range ev.Loop.Bodies {
			look(b.own())
		}
		look(p.Facts)
	}
	return r
}

// received: a block is kept in the entry it was requested for, and in no other.
func (c *Ctx) received(m *fsm, fn *ssa.Function) {
	a := m.info(fn)
	e := a.e
	name := fnName(c, fn)
	for _, p := range a.paths {
		if p.Kind != "return" {
			continue
		}
		var block *Term
		known := func(t *Term) bool {
			if t.Op == "typeassert" && isBlockPtr(t.Typ) {
				block = t
			}
			return false
		}
		for _, f := range p.Facts {
			f.Atom.any(known)
		}
		for _, ev := range p.Events {
			for _, x := range ev.Args {
				x.any(known)
			}
		}
		stored := 0
		walkPath(p, nil, nil, p, func(s site) {
			ev := s.ev
			if ev.Kind != "store" || len(ev.Args) < 2 {
				return
			}
			ad := ev.Args[0]
			if ad.Op != "faddr" || ad.Args[0].Op != "iaddr" || !isBlockPtr(deref(typOr(ad))) {
				return
			}
			stored++
			list, idx := ad.Args[0].Args[0], ad.Args[0].Args[1]
			v := strip(ev.Args[1])
			ok := v == block
			if c.check(ok, "received", name, ev.Pos, s.path, "the block kept is %v instead of the received one", v) {
				hit := false
				for _, f := range s.facts() {
					if x := f.Atom; x.Op == "eq" && f.Val {
						l, r := x.Args[0], x.Args[1]
						for k := 0; k < 2; k++ {
							if ll, i, b, ok := itemField(l); ok && !b && ll == list && i == idx && idOfBlock(r) == block {
								hit = true
							}
							l, r = r, l
						}
					}
				}
				c.check(hit, "received", name, ev.Pos, s.path, "a block is kept as received although another one was requested")
			}
		})
		if stored > 0 || block == nil {
			continue
		}
		// not kept: no entry asks for it
		ok := false
		for _, f := range p.Facts {
			if x := f.Atom; x.Op == "eq" && x.Args[0] == block && x.Args[1].Op == "nil" && f.Val {
				ok = true
			}
		}
		for ev, list := range queueLoops(e, p) {
			if !exhausted(e, p, ev, list) {
				continue
			}
			it := e.tt.mk("iter", ev.Loop.ID, types.Typ[types.Int])
			all := len(ev.Loop.Bodies) > 0
			for _, b := range ev.Loop.Bodies {
				miss := false
				for _, f := range b.own() {
					if x := f.Atom; x.Op == "eq" && !f.Val {
						l, r := x.Args[0], x.Args[1]
						for k := 0; k < 2; k++ {
							if ll, i, bl, ok := itemField(l); ok && !bl && ll == list && i == it && idOfBlock(r) == block {
								miss = true
							}
							l, r = r, l
						}
					}
				}
				all = all && miss
			}
			ok = ok || all
		}
		c.check(ok, "received", name, p.Pos, p, "a received block that was requested is not kept")
	}
}

// applied: blocks are stored in the order requested, each once, up to the first one missing.
func (c *Ctx) applied(m *fsm, fn *ssa.Function, complete bool) {
	a := m.info(fn)
	e := a.e
	name := fnName(c, fn)
	for _, p := range a.paths {
		if p.Kind != "return" {
			continue
		}
		loops := queueLoops(e, p)
		// a loop that found every entry received
		allReceived := map[*Term]*Event{}
		for ev, list := range loops {
			it := e.tt.mk("iter", ev.Loop.ID, types.Typ[types.Int])
			if !exhausted(e, p, ev, list) {
				continue
			}
			all := true
			for _, b := range ev.Loop.Bodies {
				all = all && matches(b.own(), list, it) > 0
			}
			if all {
				allReceived[list] = ev
			}
		}
		var puts []site
		fires := 0
		cleared := false
		walkPath(p, nil, nil, p, func(s site) {
			if isCallSuffix(s.ev, "HistoryProvider).PutBlock") {
				puts = append(puts, s)
			}
			if k, ok := fired(s.ev); ok && k == m.ready {
				fires++
			}
			if s.ev.Kind == "store" && len(s.ev.Args) > 1 && s.ev.Args[0].Op == "faddr" && isQueue(deref(typOr(s.ev.Args[0]))) && len(s.inLoop) == 0 {
				cleared = cleared || clearedQueue(s.ev.Args[1])
			}
		})
		var loop *Event
		var list *Term
		for _, s := range puts {
			l, idx, bl, ok := itemField(s.ev.Args[1])
			if !c.check(ok && bl, "applied", name, s.ev.Pos, s.path, "the block stored is %v instead of a received one", s.ev.Args[1]) {
				continue
			}
			c.check(loaderPeer(s.ev.Args[2]), "applied", name, s.ev.Pos, s.path, "the block is stored for %v", s.ev.Args[2])
			var lp *Event
			for ev, over := range loops {
				if over == l && idx.is("iter", ev.Loop.ID) {
					lp = ev
				}
			}
			if !c.check(lp != nil, "applied", name, s.ev.Pos, s.path, "blocks are not stored in the order requested") {
				continue
			}
			if loop != nil && lp != loop {
				c.check(false, "applied", name, s.ev.Pos, s.path, "blocks are stored twice")
			}
			loop, list = lp, l
			ready := allReceived[l]
			before := ready != nil && ready != lp
			if complete {
				c.check(before, "applied", name, s.ev.Pos, s.path, "blocks are stored before all of them are received")
			} else {
				c.check(before || matches(s.facts(), l, idx) > 0, "applied", name, s.ev.Pos, s.path, "a block is stored although it is not the one requested")
			}
		}
		if loop == nil {
			// some loop found a missing entry at once
			missing := false
			for ev, l := range loops {
				if matches(p.Facts, l, e.tt.mk("iter", ev.Loop.ID, types.Typ[types.Int])) < 0 {
					missing = true
				}
			}
			failed := e.errOutcome(p) == errYes
			empty := false
			for ev, l := range loops {
				if len(ev.Loop.Bodies) == 0 && exhausted(e, p, ev, l) {
					empty = true
				}
			}
			c.check(missing || failed || empty, "applied", name, p.Pos, p, "received blocks are not stored")
			c.check(fires == 0, "applied", name, p.Pos, p, "the loading ends before the blocks are stored")
			continue
		}
		for _, b := range loop.Loop.Bodies {
			n := 0
			for _, ev := range b.Events {
				if isCallSuffix(ev, "HistoryProvider).PutBlock") {
					n++
					c.check(e.knownNil(b.Facts, ev.Res), "applied", name, ev.Pos, b, "the next block is stored although this one was refused")
				}
			}
			c.check(n == 1, "applied", name, loop.Pos, b, "a received block is stored %d times", n)
		}
		if exhausted(e, p, loop, list) {
			if complete {
				c.check(fires == 1, "applied", name, p.Pos, p, "the loading does not end although all blocks are stored")
				c.check(cleared, "once", name, p.Pos, p, "stored blocks are stored again when the loading fails later")
			}
			continue
		}
		it := e.tt.mk("iter", loop.Loop.ID, types.Typ[types.Int])
		refused := false
		for _, s := range puts {
			if len(s.inLoop) == 0 && e.knownNonNil(p.Facts, s.ev.Res) {
				refused = true
			}
		}
		c.check(refused || matches(p.Facts, list, it) < 0, "applied", name, p.Pos, p, "received blocks at the end of the list are not stored")
		c.check(fires == 0, "applied", name, p.Pos, p, "the loading ends successfully although a block was refused")
	}
}
