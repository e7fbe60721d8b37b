package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"strings"
)

// Life of the detector: how it stops, and what it does periodically.

// ---- C19: shutdown ----

func runC19(c *Ctx) {
	c.blocking()
	c.leaving()
	c.contexts()
	c.shutdown()
	c.atLeast("selectable", 8, "channel operations")
	c.atLeast("leaves", 3, "endless loops")
}

func isChanOp(ev *Event) bool { return ev.Kind == "select" || ev.Kind == "recv" || ev.Kind == "send" }

func nonblocking(ev *Event) bool {
	return ev.Kind == "select" && strings.Contains(ev.Extra, "nonblocking")
}

// offersDone: the operation ends when the detector is told to stop.
func offersDone(ev *Event) bool {
	for _, a := range ev.Args {
		if isDone(a) {
			return true
		}
	}
	return false
}

// tookDone: the path found out here that the detector is told to stop.
func tookDone(ev *Event) bool {
	return isChanOp(ev) && ev.Res != nil && ev.Res.Op == "recv" && isDone(ev.Res.Args[0])
}

// isBlockingCall lists calls that wait for something outside of the process without a limit.
func isBlockingCall(ev *Event) bool {
	return isCallSuffix(ev, ".Listener).Accept", "TCPListener).Accept", "TCPListener).AcceptTCP")
}

func (c *Ctx) lifeRoots(f func(rt rtRoot, paths []*Path, e *Engine, name string)) {
	for _, rt := range c.runtimeRoots() {
		ps, e := c.runtimePaths(rt)
		f(rt, ps, e, fnName(c, rt.fn))
	}
}

// blocking: nothing waits longer than until the detector is told to stop.
func (c *Ctx) blocking() {
	c.lifeRoots(func(rt rtRoot, paths []*Path, e *Engine, name string) {
		walk(paths, func(s site) {
			ev := s.ev
			switch {
			case isChanOp(ev):
				timed := false
				for _, a := range ev.Args {
					timed = timed || callName(a) == "time.After"
				}
				c.check(offersDone(ev) || nonblocking(ev) || timed, "selectable", name, ev.Pos, s.path,
					"this operation on %s can wait for ever after the detector is told to stop", chans(ev))
			case isBlockingCall(ev):
				c.check(closedOnStop(s, ev), "unblocked", name, ev.Pos, s.path, "the detector waits for connections after it is told to stop")
			case isCall(ev, "time.Sleep"):
				n, ok := ev.Args[0].int64()
				c.check(ok && n <= 60e9, "selectable", name, ev.Pos, s.path, "this waits for %v after the detector is told to stop", ev.Args[0])
			}
		})
	})
	for _, pk := range []string{"chains", "peers"} {
		for _, fn := range c.p.pkgFuncs(pk) {
			if !isEntry(fn) {
				continue
			}
			ps, _ := c.paths(fn, opts{key: "runtime", noInline: boundary(fn.Pkg)})
			walk(ps, func(s site) {
				if isChanOp(s.ev) && !nonblocking(s.ev) {
					c.bad("selectable", fnName(c, fn), s.ev.Pos, s.path, "this operation on %s can wait for ever after the detector is told to stop", chans(s.ev))
				}
			})
		}
	}
}

func chans(ev *Event) string {
	if len(ev.Args) == 0 {
		return "no channel"
	}
	return ev.Args[0].String()
}

// closedOnStop: the listener that connections are accepted from is closed by something that waits for the stop.
func closedOnStop(s site, at *Event) bool {
	ln := at.Args[0]
	closes := func(bodies []*Path, needDone bool) bool {
		all := len(bodies) > 0
		for _, b := range bodies {
			done, cl := !needDone, false
			for _, ev := range b.Events {
				done = done || tookDone(ev) || ev.Kind == "recv" && len(ev.Args) > 0 && isDone(ev.Args[0])
				if isCallSuffix(ev, "Listener).Close") && ev.Args[0] == ln {
					cl = done
				}
			}
			all = all && cl
		}
		return all
	}
	before := func(p *Path, stop *Event) bool {
		for _, ev := range p.Events {
			if ev == stop {
				break
			}
			if ev.Kind != "go" {
				continue
			}
			if ev.Fn == "context.AfterFunc" && closes(ev.Bodies, false) || closes(ev.Bodies, true) {
				return true
			}
		}
		return false
	}
	if before(s.path, at) {
		return true
	}
	if len(s.inLoop) > 0 {
		return before(s.top, s.inLoop[0])
	}
	return false
}

// leaving: an endless loop looks for the stop before anything else in each round, and leaves when it finds it.
func (c *Ctx) leaving() {
	c.lifeRoots(func(rt rtRoot, paths []*Path, e *Engine, name string) {
		levels(paths, func(p *Path) {
			c.check(p.Kind != "diverge", "leaves", name, p.Pos, p, "this loop is never left")
		})
		walk(paths, func(s site) {
			ev := s.ev
			if ev.Kind != "loop" {
				return
			}
			waits := false
			for _, b := range ev.Loop.Bodies {
				for _, x := range b.Events {
					waits = waits || isChanOp(x) || isBlockingCall(x)
				}
			}
			if !waits {
				return
			}
			for _, b := range ev.Loop.Bodies {
				var first *Event
				for _, x := range b.Events {
					if isChanOp(x) || isBlockingCall(x) {
						first = x
						break
					}
				}
				if first == nil {
					// bounded by something else
					if !isEndless(ev) {
						continue
					}
					c.check(false, "leaves", name, ev.Loop.Pos, b, "a round of this loop does not look whether the detector is told to stop")
					continue
				}
				if first.Kind != "select" && len(stopFacts(b)) > 0 {
					c.ok("leaves")
					continue
				}
				if !c.check(first.Kind == "select" && offersDone(first), "leaves", name, first.Pos, b, "a round of this loop does not look whether the detector is told to stop") {
					continue
				}
				c.check(!tookDone(first), "leaves", name, first.Pos, b, "the loop goes on after the detector is told to stop")
			}
		})
	})
}

// stopFacts: the path looked whether the context is cancelled.
func stopFacts(p *Path) (r []Fact) {
	for _, f := range p.own() {
		if a := f.Atom; a.Op == "eq" && callName(a.Args[0]) == "(context.Context).Err" {
			r = append(r, f)
		}
	}
	return
}

// isEndless: no round of the loop depends on a counter or a list.
func isEndless(ev *Event) bool {
	for _, b := range ev.Loop.Bodies {
		for _, f := range b.own() {
			if f.Atom.any(func(t *Term) bool { return t.is("iter", ev.Loop.ID) || t.Op == "more" }) {
				return false
			}
		}
	}
	return true
}

// contexts: everything that waits does so on a context that ends with the signal.
func (c *Ctx) contexts() {
	signals := 0
	c.lifeRoots(func(rt rtRoot, paths []*Path, e *Engine, name string) {
		walk(paths, func(s site) {
			ev := s.ev
			if isCall(ev, "signal.NotifyContext") {
				signals++
				have := map[string]bool{}
				for _, a := range ev.Args[1:] {
					a.any(func(t *Term) bool {
						have[strings.TrimPrefix(t.String(), "&")] = true
						return false
					})
				}
				c.check((have["os.Interrupt"] || have["2"]) && have["15"], "signals", name, ev.Pos, s.path, "the detector is not told to stop by both an interrupt and a termination signal")
				return
			}
			if ev.Kind != "call" && !isChanOp(ev) && ev.Kind != "go" {
				return
			}
			for _, a := range ev.Args {
				if detached(a) && !isCall(ev, "errgroup.WithContext") || isCall(ev, "errgroup.WithContext") && detached(a) {
					c.check(false, "context", name, ev.Pos, s.path, "%s uses a context that does not end when the detector is told to stop", ev.Fn)
				} else if isContext(a) {
					c.ok("context")
				}
			}
		})
	})
	c.check(signals > 0, "signals", "main", 0, nil, "the detector is not stopped by signals")
	c.atLeast("context", 6, "uses of contexts")
}

func isContext(t *Term) bool { return isNamed(typOr(t), "context", "Context") }

// detached: a context that is not cancelled by the signal and has no time limit.
func detached(t *Term) bool {
	found := false
	var rec func(t *Term, limited bool)
	rec = func(t *Term, limited bool) {
		switch callName(t) {
		case "signal.NotifyContext", "context.WithTimeout", "context.WithDeadline":
			limited = true
		case "context.Background", "context.TODO", "context.WithoutCancel":
			if !limited {
				found = true
			}
		}
		for _, a := range t.Args {
			rec(a, limited)
		}
	}
	if t != nil && t.any(isContext) {
		rec(t, false)
	}
	return found
}

// group of a go statement started through a group of goroutines.
func groupOf(ev *Event) *Term {
	if ev.Kind == "go" && strings.HasSuffix(ev.Fn, "Group).Go") && len(ev.Args) > 0 {
		return ev.Args[0]
	}
	return nil
}

func isWait(ev *Event) bool { return isCallSuffix(ev, "Group).Wait") }

// shutdown: after the signal everything that was started is waited for, channels are closed only after those who send on
// them ended, and the stores are closed last.
func (c *Ctx) shutdown() {
	stops := 0
	ran := map[string]bool{}
	c.lifeRoots(func(rt rtRoot, paths []*Path, e *Engine, name string) {
		for _, p := range paths {
			c.startStop(rt, p, name, &stops, ran)
		}
	})
	if !ran[""] {
		for T := range c.parts() {
			c.check(ran[T], "once", T, 0, nil, "%s is never started", T)
		}
	}
	c.check(stops > 0, "waits", "main", 0, nil, "the detector does not wait for the signal")
	c.components()
}

func (c *Ctx) startStop(rt rtRoot, p *Path, name string, stops *int, ran map[string]bool) {
	told := -1
	for i, ev := range p.Events {
		if ev.Kind == "recv" && isDone(ev.Args[0]) && ev.Args[0].any(func(t *Term) bool { return callName(t) == "signal.NotifyContext" }) {
			told = i
		}
	}
	if told < 0 {
		// nothing may be left running when the set-up fails
		for _, ev := range p.Events {
			if rt.pkg == "main" && p.Kind == "return" && rt.fn.Name() == "main" && isOpened(ev) {
				c.closedAtEnd(p, ev, name, 0)
			}
		}
		return
	}
	*stops++
	last := told
	pos := func(f func(ev *Event) bool) int {
		for i, ev := range p.Events {
			if i > told && f(ev) {
				return i
			}
		}
		return -1
	}
	for i, ev := range p.Events {
		if i > told {
			break
		}
		if g := groupOf(ev); g != nil {
			w := pos(func(x *Event) bool { return isWait(x) && x.Args[0] == g })
			c.check(w > 0, "waits", name, ev.Pos, p, "the end of %s is not waited for", bodyName(ev))
			last = max(last, w)
			continue
		}
		if ev.Kind == "call" && strings.HasSuffix(ev.Fn, ").Run") && len(ev.Args) == 2 && isContext(ev.Args[1]) {
			w := pos(func(x *Event) bool {
				return x.Kind == "call" && x.Fn == strings.TrimSuffix(ev.Fn, "Run")+"Shutdown" && x.Args[0] == ev.Args[0]
			})
			c.check(w > 0, "waits", name, ev.Pos, p, "the end of %s is not waited for", ev.Fn)
			last = max(last, w)
		}
	}
	c.startedOnce(p, name, told, ran)
	shut := map[*Term]bool{}
	for i, ev := range p.Events {
		if isOpened(ev) {
			c.closedAtEnd(p, ev, name, last)
		}
		if ev.Kind == "close" {
			c.check(!shut[ev.Args[0]], "closed", name, ev.Pos, p, "a channel is closed twice")
			shut[ev.Args[0]] = true
			owner := ""
			ok := true
			for j, g := range p.Events {
				grp := groupOf(g)
				if grp == nil || !sends(p, g, ev.Args[0]) {
					continue
				}
				owner = bodyName(g)
				ok = false
				for k, w := range p.Events[:i] {
					if k > j && isWait(w) && w.Args[0] == grp {
						ok = true
					}
				}
			}
			c.check(ok, "closed", name, ev.Pos, p, "a channel is closed while %s may send on it", owner)
		}
	}
}

// startedOnce: every part of the detector is started before the signal is waited for, and only once.
func (c *Ctx) startedOnce(p *Path, name string, told int, ran map[string]bool) {
	runs := map[string]int{}
	dyn := false
	var count func(evs []*Event, loop bool)
	count = func(evs []*Event, loop bool) {
		for _, ev := range evs {
			if ev.Loop != nil {
				for _, b := range ev.Loop.Bodies {
					count(b.Events, true)
				}
			}
			if (ev.Kind == "call" || ev.Kind == "enter") && strings.HasSuffix(ev.Fn, ").Run") {
				runs[ev.Fn]++
				dyn = dyn || loop
			}
			if ev.Kind == "call" && ev.Fn == "dyn" {
				dyn = true
			}
		}
	}
	count(p.Events[:told], false)
	bodies := map[string]bool{}
	for _, ev := range p.Events[:told] {
		if groupOf(ev) == nil || len(ev.Args) < 2 {
			continue
		}
		k := bodyKey(ev)
		c.check(!bodies[k], "once", name, ev.Pos, p, "%s is started twice", bodyName(ev))
		bodies[k] = true
	}
	if dyn {
		ran[""] = true // Parts are started in a way that does not tell which.
		return
	}
	for T, chosen := range c.parts() {
		n := runs["(*"+T+").Run"] + runs["("+T+").Run"]
		c.check(n == 1 || chosen && n == 0, "once", name+" "+T, p.Events[told].Pos, p, "%s is started %d times", T, n)
		if n > 0 {
			ran[T] = true
		}
	}
}

// parts lists the types that can be run and shut down, and whether one of several is chosen behind an interface.
func (c *Ctx) parts() map[string]bool {
	if c.partsOf != nil {
		return c.partsOf
	}
	r := map[string]bool{}
	c.partsOf = r
	chosen := map[string]bool{}
	for _, pk := range c.p.pkgs {
		for _, fn := range c.p.pkgFuncs(pk.Name) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if mi, ok := in.(*ssa.MakeInterface); ok && types.NewMethodSet(mi.Type()).Lookup(nil, "Run") != nil {
						if n, ok := types.Unalias(deref(mi.X.Type())).(*types.Named); ok && n.Obj().Pkg() != nil {
							chosen[n.Obj().Pkg().Name()+"."+n.Obj().Name()] = true
						}
					}
				}
			}
		}
	}
	for _, pk := range c.p.pkgs {
		if pk.Types == nil {
			continue
		}
		for _, n := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if _, ok := tn.Type().(*types.Named); !ok || types.IsInterface(tn.Type()) {
				continue
			}
			ms := types.NewMethodSet(types.NewPointer(tn.Type()))
			run, shut := ms.Lookup(pk.Types, "Run"), ms.Lookup(pk.Types, "Shutdown")
			if run == nil || shut == nil || len(run.Index()) != 1 {
				continue
			}
			if s := run.Type().(*types.Signature); s.Params().Len() == 1 && isNamed(s.Params().At(0).Type(), "context", "Context") {
				r[pk.Types.Name()+"."+n] = chosen[pk.Types.Name()+"."+n]
			}
		}
	}
	return r
}

// isOpened recognises the opening of a store.
func isOpened(ev *Event) bool {
	return isCall(ev, "peers.NewRegistry") || isCall(ev, "chains.NewLinkage")
}

// closedAtEnd: the store that was opened is closed after the event with the given index.
func (c *Ctx) closedAtEnd(p *Path, open *Event, name string, after int) {
	ok, opened := false, true
	if open.Res != nil {
		for _, f := range p.Facts {
			if a := f.Atom; a.Op == "eq" && !f.Val && a.Args[1].Op == "nil" && a.Args[0].Op == "ext" && a.Args[0].Sym == "1" && a.Args[0].Args[0] == open.Res {
				opened = false
			}
		}
	}
	if !opened || p.Kind != "return" {
		return
	}
	for i, ev := range p.Events {
		if i > after && isCall(ev, "(*peers.Registry).Close", "(*chains.Linkage).Close") && ev.Args[0].Op == "ext" && ev.Args[0].Args[0] == open.Res {
			ok = true
		}
		if i <= after && after > 0 && isCall(ev, "(*peers.Registry).Close", "(*chains.Linkage).Close") && ev.Args[0].Op == "ext" && ev.Args[0].Args[0] == open.Res {
			c.bad("stores", name, ev.Pos, p, "a store is closed while it is used")
		}
	}
	c.check(ok, "stores", name, open.Pos, p, "%s: the store is not closed when the detector ends", open.Fn)
}

func bodyName(ev *Event) string {
	for _, b := range ev.Bodies {
		for _, x := range b.Events {
			if x.Kind == "call" {
				return x.Fn
			}
		}
	}
	return "a goroutine"
}

// sends: the goroutine works on an object that has the channel in one of its fields.
func sends(p *Path, g *Event, ch *Term) bool {
	objs := map[*Term]bool{}
	for _, b := range g.Bodies {
		for _, x := range b.Events {
			for _, a := range x.Args {
				objs[a] = true
			}
		}
	}
	for a, v := range p.St.mem {
		if a.Op == "faddr" && v == ch && objs[a.Args[0]] {
			return true
		}
	}
	return false
}

// components: what a component starts it stores for its shutdown to wait for.
func (c *Ctx) components() {
	n := 0
	c.lifeRoots(func(rt rtRoot, paths []*Path, e *Engine, name string) {
		if rt.fn.Name() != "Run" || rt.fn.Signature.Recv() == nil {
			return
		}
		for _, p := range paths {
			for _, ev := range p.Events {
				g := groupOf(ev)
				if g == nil {
					if ev.Kind == "go" {
						c.bad("waits", name, ev.Pos, p, "the end of %s cannot be waited for", bodyName(ev))
					}
					continue
				}
				n++
				field, ctx := "", false
				for a, v := range p.St.mem {
					if a.Op != "faddr" {
						continue
					}
					if fn, bind := e.resolve(v); fn != nil && strings.HasSuffix(c.p.funcName(c.p.unwrap(fn)), "Group).Wait") && len(bind) == 1 && bind[0] == g {
						field = a.Sym
					}
					if v == g {
						field = a.Sym
					}
					if isContext(v) && v.Op == "ext" && g.Op == "ext" && v.Args[0] == g.Args[0] {
						ctx = true
					}
				}
				c.check(ctx, "context", name, ev.Pos, p, "%s is not told to stop", bodyName(ev))
				if !c.check(field != "", "waits", name, ev.Pos, p, "the end of %s cannot be waited for", bodyName(ev)) {
					continue
				}
				sd := c.root(rt.pkg, recvName(rt.fn.Signature.Recv().Type()), "Shutdown")
				if sd == nil {
					continue
				}
				sp, _ := c.runtimePaths(rtRoot{sd, rt.pkg})
				for _, q := range sp {
					waited := false
					for _, x := range q.Events {
						if x.Kind == "call" && (x.Fn == "dyn" || isWait(x)) && len(x.Args) > 0 && endsWithField(x.Args[0], field) {
							waited = true
						}
						c.check(x.Kind != "close" || waited, "closed", fnName(c, sd), x.Pos, q, "a channel is closed while it may be used")
					}
					c.check(waited || q.Kind == "panic", "waits", fnName(c, sd), q.Pos, q, "the end of %s is not waited for", bodyName(ev))
				}
			}
		}
	})
	c.check(n >= 2, "waits", "components", 0, nil, "components do not start what they can wait for")
	c.serverStopped()
}

func recvName(T types.Type) string {
	if n, ok := deref(T).(*types.Named); ok {
		return n.Obj().Name()
	}
	return fmt.Sprint(T)
}

// serverStopped: a server that listens until it is closed is closed before its end is waited for.
func (c *Ctx) serverStopped() {
	serves := map[string]bool{}
	c.lifeRoots(func(rt rtRoot, paths []*Path, e *Engine, name string) {
		walk(paths, func(s site) {
			if isCallSuffix(s.ev, "http.Server).ListenAndServe", "http.Server).Serve") {
				serves[rt.pkg] = true
			}
		})
	})
	for pk := range serves {
		for _, rt := range c.runtimeRoots(pk) {
			if rt.fn.Name() != "Shutdown" {
				continue
			}
			ps, _ := c.runtimePaths(rt)
			for _, p := range ps {
				stopped := false
				for _, ev := range p.Events {
					if isCallSuffix(ev, "http.Server).Shutdown", "http.Server).Close") {
						stopped = true
					}
					if ev.Kind == "call" && (ev.Fn == "dyn" || isWait(ev)) {
						c.check(stopped, "unblocked", fnName(c, rt.fn), ev.Pos, p, "the end of the server is waited for without stopping it")
					}
				}
			}
		}
	}
	c.check(len(serves) > 0, "unblocked", "api", 0, nil, "the API is not served")
}

// ---- C20: periodic work ----

func runC20(c *Ctx) {
	ticks := map[string]int{}
	c.lifeRoots(func(rt rtRoot, paths []*Path, e *Engine, name string) {
		levels(paths, func(p *Path) {
			ch, _, at := receivedFrom(p)
			if ch == nil || timerOf(ch) == nil {
				return
			}
			t := timerOf(ch)
			ticks[rt.pkg]++
			rearmed, after := false, false
			for _, ev := range p.Events {
				after = after || ev == at
				if after && isCallSuffix(ev, "Timer).Reset", "Ticker).Reset") && ev.Args[0] == t {
					n, ok := ev.Args[1].int64()
					rearmed = ok && n > 0
					c.check(rearmed, "armed", name, ev.Pos, p, "the timer is set to %v", ev.Args[1])
				}
				if after && isCallSuffix(ev, "Timer).Stop", "Ticker).Stop") && ev.Args[0] == t {
					rearmed = false
				}
			}
			c.check(rearmed || isRepeating(ch), "armed", name, at.Pos, p, "after this round the timer %v never fires again", t)
			c.check(p.Kind == "back", "again", name, at.Pos, p, "the work ends when the timer %v fires", t)
		})
	})
	c.check(ticks["main"] >= 2 && ticks["loading"] >= 1, "armed", "timers", 0, nil, "some periodic work is not driven by a timer")
	c.started()
	c.pinged()
}

// started: a timer that is waited for is set when its component starts.
func (c *Ctx) started() {
	waited := map[string]string{} // field -> function
	c.lifeRoots(func(rt rtRoot, paths []*Path, e *Engine, name string) {
		levels(paths, func(p *Path) {
			if ch, _, _ := receivedFrom(p); ch != nil {
				if t := timerOf(ch); t != nil {
					if a := loadAddr(t); a != nil && a.Op == "faddr" {
						waited[typeOfOwner(a)+"."+a.Sym] = name
					} else {
						c.bad("started", name, 0, p, "the timer %v cannot be found where it is started", t)
					}
				}
			}
		})
	})
	field := func(t *Term) string {
		if a := loadAddr(t); a != nil && a.Op == "faddr" {
			return typeOfOwner(a) + "." + a.Sym
		}
		return ""
	}
	// what happens in other rounds does not end the periodic work
	c.lifeRoots(func(rt rtRoot, paths []*Path, e *Engine, name string) {
		levels(paths, func(p *Path) {
			if p.Kind != "back" {
				return
			}
			stopped := map[string]*Event{}
			for _, ev := range p.Events {
				if isCallSuffix(ev, "Timer).Stop", "Ticker).Stop") {
					stopped[field(ev.Args[0])] = ev
				}
				if isCallSuffix(ev, "Timer).Reset", "Ticker).Reset") {
					delete(stopped, field(ev.Args[0]))
				}
			}
			for f, ev := range stopped {
				if waited[f] != "" && !onDemand(c, f) {
					c.bad("armed", name, ev.Pos, p, "the timer %s is stopped and never fires again", f)
				}
			}
		})
	})
	for f, fn := range waited {
		armed := 0
		c.lifeRoots(func(rt rtRoot, paths []*Path, e *Engine, name string) {
			if rt.fn.Name() != "Run" && rt.fn.Name() != "main" {
				return
			}
			for _, p := range paths {
				if !runsComponent(p, f) {
					continue
				}
				ok := false
				for _, ev := range p.Events {
					if !isCallSuffix(ev, "Timer).Reset", "Ticker).Reset") {
						continue
					}
					if n, k := ev.Args[1].int64(); !k || n <= 0 {
						continue
					}
					if a := loadAddr(ev.Args[0]); a != nil && a.Op == "faddr" && typeOfOwner(a)+"."+a.Sym == f {
						ok = true
					}
					for a, v := range p.St.mem {
						if a.Op == "faddr" && v == ev.Args[0] && typeOfOwner(a)+"."+a.Sym == f {
							ok = true
						}
					}
				}
				if ok {
					armed++
				}
				if !onDemand(c, f) {
					c.check(ok, "started", name+" "+f, p.Pos, p, "the timer that %s waits for is not set", fn)
				}
			}
		})
		if onDemand(c, f) {
			continue
		}
		c.check(armed > 0, "started", f, 0, nil, "the timer that %s waits for is never set", fn)
	}
	c.atLeast("started", 3, "timers")
}

// typeOfOwner names the type that a field belongs to.
func typeOfOwner(a *Term) string {
	if len(a.Args) == 0 {
		return ""
	}
	return recvName(typOr(a.Args[0]))
}

// runsComponent: the path starts the component that the field belongs to.
func runsComponent(p *Path, field string) bool {
	owner := field[:strings.LastIndex(field, ".")]
	for _, ev := range p.Events {
		if groupOf(ev) == nil {
			continue
		}
		for _, b := range ev.Bodies {
			for _, x := range b.Events {
				if len(x.Args) > 0 && recvName(typOr(x.Args[0])) == owner {
					return true
				}
			}
		}
	}
	return false
}

// onDemand: the timer measures the time of a loading and is set when one is started.
func onDemand(c *Ctx, field string) bool {
	on := false
	for _, r := range c.loaderRoots() {
		walk(r.paths, func(s site) {
			if s.ev.Kind != "store" || len(s.ev.Args) < 2 || !isSlot(s.ev.Args[0]) || isNilOrZero(s.ev.Args[1]) {
				return
			}
			for _, x := range s.path.Events {
				if isCallSuffix(x, "Timer).Reset", "Ticker).Reset") {
					if a := loadAddr(x.Args[0]); a != nil && a.Op == "faddr" && typeOfOwner(a)+"."+a.Sym == field {
						// not the timer that drives the search for lagging peers
						if ch, _, _ := receivedFrom(s.path); timerOf(ch) != x.Args[0] {
							on = true
						}
					}
				}
			}
		})
	}
	return on
}

// pinged: connected peers are asked for addresses, and available addresses are taken, on every round.
func (c *Ctx) pinged() {
	asked, taken := map[*Term]string{}, map[*Term]string{}
	c.lifeRoots(func(rt rtRoot, paths []*Path, e *Engine, name string) {
		if rt.pkg != "main" {
			return
		}
		levels(paths, func(p *Path) {
			ch, _, _ := receivedFrom(p)
			if ch == nil || timerOf(ch) == nil {
				return
			}
			for _, ev := range p.Events {
				if isCall(ev, "(*peers.Registry).Broadcast") {
					m := typOr(unface(ev.Args[1]))
					if c.check(isNamed(deref(m), "proto", "GetPeersMessage"), "ping", name, ev.Pos, p, "peers are sent %v", m) {
						asked[ch] = name
					}
				}
				if isCall(ev, "(*peers.Registry).TakeAvailableAddresses") {
					taken[ch] = name
				}
			}
		})
		levels(paths, func(p *Path) {
			ch, _, at := receivedFrom(p)
			if ch == nil || timerOf(ch) == nil {
				return
			}
			n, k := 0, 0
			for _, ev := range p.Events {
				if isCall(ev, "(*peers.Registry).Broadcast") {
					n++
				}
				if isCall(ev, "(*peers.Registry).TakeAvailableAddresses") {
					k++
				}
			}
			if asked[ch] == name {
				c.check(n == 1, "ping", name, at.Pos, p, "connected peers are not asked for addresses")
			}
			if taken[ch] == name {
				c.check(k == 1, "respawn", name, at.Pos, p, "available addresses are not taken")
			}
		})
	})
	c.check(len(asked) > 0, "ping", "main", 0, nil, "connected peers are never asked for addresses")
	c.check(len(taken) > 0, "respawn", "main", 0, nil, "available addresses are never taken")
	c.broadcast()
}

// broadcast: every connection is sent the message once.
func (c *Ctx) broadcast() {
	fn := c.root("peers", "Registry", "Broadcast")
	if fn == nil {
		return
	}
	paths, e := c.paths(fn)
	name := fnName(c, fn)
	for _, p := range paths {
		if p.Kind != "return" {
			continue
		}
		n := 0
		for _, ev := range p.Events {
			if ev.Kind != "loop" {
				c.check(!isCallSuffix(ev, ".Peer).SendMessage"), "broadcast", name, ev.Pos, p, "a message is sent outside of the walk over the connections")
				continue
			}
			var over *Term
			sent := false
			for _, b := range ev.Loop.Bodies {
				var el *Term
				for _, f := range b.own() {
					if a := f.Atom; a.Op == "more" && f.Val && isConnMap(a.Args[0].Args[0]) {
						over = a.Args[0].Args[0]
					}
				}
				k := 0
				for _, x := range b.Events {
					if isCallSuffix(x, ".Peer).SendMessage") {
						k++
						sent = true
						el = x.Args[0]
						c.check(el.Op == "mapval" && el.Args[0] == over, "broadcast", name, x.Pos, b, "the message is sent to %v", el)
						c.check(unface(x.Args[1]).Op == "param", "broadcast", name, x.Pos, b, "the message sent is %v", x.Args[1])
					}
				}
				if over != nil && b.Kind == "back" {
					c.check(k == 1, "broadcast", name, ev.Loop.Pos, b, "a connection is sent the message %d times", k)
				}
			}
			if sent {
				n++
				c.check(over != nil && exhausted(e, p, ev, over), "broadcast", name, ev.Loop.Pos, p, "connections are left out")
			}
		}
		c.check(n == 1, "broadcast", name, p.Pos, p, "the message is sent %d times", n)
	}
}

// bodyKey tells goroutines that do different things apart.
func bodyKey(ev *Event) string {
	for _, b := range ev.Bodies {
		for _, x := range b.Events {
			if x.Kind == "call" || x.Kind == "recv" || x.Kind == "select" {
				k := x.Kind + " " + x.Fn
				for _, a := range x.Args {
					if a != nil {
						k += fmt.Sprintf(" %p", a) // Equal terms are the same object.
					}
				}
				return k
			}
		}
	}
	return fmt.Sprint(ev.Pos)
}
