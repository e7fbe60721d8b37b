package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C21: what is taken is given back ----

// resource describes something that has to be given back.
type resource struct {
	take    []string // names, or suffixes of names, of the calls that take it
	release []string // suffixes of the calls that give it back
	give    []string // calls that become responsible for it
	keep    bool     // a successful function may return it inside of its result
	what    string
}

var resources = []resource{
	{take: []string{"(*leveldb.DB).GetSnapshot"}, release: []string{"Snapshot).Release"}, what: "the snapshot"},
	{take: []string{").NewIterator"}, release: []string{").Release"}, what: "the iterator"},
	{take: []string{"leveldb.OpenFile", "leveldb.Open", "leveldb.RecoverFile"}, release: []string{"(*leveldb.DB).Close"}, keep: true, what: "the database"},
	{take: []string{"net.Listen", "net.ListenTCP", "(*net.ListenConfig).Listen", "(net.ListenConfig).Listen"},
		release: []string{"Listener).Close"}, what: "the listening socket"},
	{take: []string{"Listener).Accept", "TCPListener).AcceptTCP"}, release: []string{"Conn).Close"},
		give: []string{"incoming.RunIncomingPeer"}, what: "the accepted connection"},
	{take: []string{"net.Dial", "net.DialTimeout", "net.DialTCP", "(*net.Dialer).Dial", "(*net.Dialer).DialContext"}, release: []string{"Conn).Close"},
		what: "the dialled connection"},
}

func (r resource) takes(ev *Event) bool {
	for _, n := range r.take {
		if ev.Kind == "call" && (ev.Fn == n || strings.HasPrefix(n, ")") && strings.HasSuffix(ev.Fn, n) || strings.Contains(n, "Listener)") && strings.HasSuffix(ev.Fn, n)) {
			return true
		}
	}
	return false
}

func runC21(c *Ctx) {
	n := map[string]int{}
	for _, rt := range c.runtimeRoots("chains", "peers", "main", "loading", "api") {
		paths, e := c.runtimePaths(rt)
		name := fnName(c, rt.fn)
		walkPaths(paths, func(p *Path) {
			if p.Kind == "panic" || p.Kind == "exit" {
				return
			}
			for i, ev := range p.Events {
				for _, r := range resources {
					if !r.takes(ev) || ev.Res == nil {
						continue
					}
					h := handle(e, ev)
					if taken := errOf(e, ev); taken != nil && e.knownNonNil(p.Facts, taken) {
						continue
					}
					n[r.what]++
					c.check(disposed(e, r, p, i+1, h) || r.keep && kept(e, p, h), "released", name, ev.Pos, p, "%s taken here is not given back", r.what)
					usedAfter(c, r, p, i+1, h, name)
				}
			}
		})
		c.owned(rt, paths, e, name)
	}
	for _, r := range resources[:5] {
		if n[r.what] == 0 {
			c.bad("released", r.what, 0, nil, "nothing takes %s any more", r.what)
		}
	}
	c.closers()
	c.atLeast("released", 500, "resources taken on a path")
	c.atLeast("connection", 10, "ends of the connections handed in")
	c.atLeast("closers", 2, "closing paths")
}

// handle is the term for what a call gives out.
func handle(e *Engine, ev *Event) *Term {
	if errOf(e, ev) == nil {
		return ev.Res
	}
	return e.tt.mk("ext", "0", nil, ev.Res)
}

// mentions: the term is the resource or something local that has it inside.
func mentions(ev *Event, h *Term) bool {
	is := func(t *Term) bool { return same(t, h) }
	for _, a := range ev.Args {
		if a != nil && a.any(is) {
			return true
		}
	}
	for _, a := range ev.Vals {
		if a != nil && a.any(is) {
			return true
		}
	}
	return false
}

// same compares terms regardless of the recorded type of an extracted result.
func same(t, h *Term) bool {
	if t == h {
		return true
	}
	return t.Op == "ext" && h.Op == "ext" && t.Sym == h.Sym && t.Args[0] == h.Args[0]
}

// disposed: at or after the event with index from the resource is released or handed over for good.
func disposed(e *Engine, r resource, p *Path, from int, h *Term) bool {
	for j := from; j < len(p.Events); j++ {
		x := p.Events[j]
		switch x.Kind {
		case "call":
			if isCallSuffix(x, r.release...) && same(unface(x.Args[0]), h) {
				return true
			}
			if isCall(x, r.give...) && mentions(x, h) {
				return true
			}
		case "go":
			if len(x.Bodies) == 0 || x.Fn == "context.AfterFunc" && stopped(p, j) {
				continue
			}
			all := true
			for _, b := range x.Bodies {
				if b.Kind != "panic" && b.Kind != "exit" && !disposed(e, r, b, 0, h) {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// stopped: what context.AfterFunc arranged for is called off on the path.
func stopped(p *Path, at int) bool {
	for _, x := range p.Events[at+1:] {
		if x.Kind == "call" && x.Fn == "dyn" && x.Args[0] == p.Events[at].Res {
			return true
		}
	}
	return false
}

// kept: the path succeeds and what it returns has the resource inside.
func kept(e *Engine, p *Path, h *Term) bool {
	if p.Kind != "return" || len(p.Results) == 0 {
		return false
	}
	if isErr := p.errResult(); len(p.Results) > 1 && !e.knownNil(p.Facts, isErr) {
		return false
	}
	seen := map[*Term]bool{}
	var in func(t *Term) bool
	in = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if same(t, h) {
			return true
		}
		if t.Op == "alloc" {
			for a, v := range p.St.mem {
				if (a == t || len(a.Args) > 0 && a.any(func(x *Term) bool { return x == t })) && in(v) {
					return true
				}
			}
		}
		for _, a := range t.Args {
			if in(a) {
				return true
			}
		}
		return false
	}
	return in(p.Results[0])
}

// usedAfter: nothing is done with the resource after it was released on the same path.
func usedAfter(c *Ctx, r resource, p *Path, from int, h *Term, name string) {
	gone := false
	var look func(evs []*Event)
	look = func(evs []*Event) {
		for _, x := range evs {
			if x.Loop != nil {
				for _, b := range x.Loop.Bodies {
					look(b.Events)
				}
			}
			if x.Kind != "call" || len(x.Args) == 0 || !same(unface(x.Args[0]), h) {
				continue
			}
			if isCallSuffix(x, r.release...) {
				gone = true
				continue
			}
			if strings.HasSuffix(x.Fn, "Addr") || strings.HasSuffix(x.Fn, ".Error") {
				continue
			}
			c.check(!gone, "use", name, x.Pos, p, "%s is used after it was given back", r.what)
		}
	}
	look(p.Events[from:])
}

// owned: a connection handed to a function that keeps connections is kept, handed on or closed, exactly one of them.
func (c *Ctx) owned(rt rtRoot, paths []*Path, e *Engine, name string) {
	for i, prm := range rt.fn.Params {
		pt := prm.Type()
		if !isNamed(pt, "peer", "Peer") && !isNamed(pt, "net", "Conn") {
			continue
		}
		h := e.paramTerm(rt.fn, i, prm)
		takes := false
		for _, p := range paths {
			takes = takes || keptBy(p, h)
		}
		if !takes {
			continue
		}
		for _, p := range paths {
			if p.Kind != "return" && p.Kind != "back" {
				continue
			}
			closed := 0
			var last *Event
			for _, x := range p.Events {
				if isCallSuffix(x, "Peer).Close", "Conn).Close") && x.Args[0] == h {
					closed++
					last = x
				}
			}
			k := keptBy(p, h)
			if k {
				pos := p.Pos
				if last != nil {
					pos = last.Pos
				}
				c.check(closed == 0, "connection", name, pos, p, "a connection that is kept is closed")
			} else {
				c.check(closed > 0, "connection", name, p.Pos, p, "a connection that is refused is not closed")
			}
		}
	}
}

func keptBy(p *Path, h *Term) bool {
	for _, x := range p.Events {
		if x.Kind == "mapset" && len(x.Args) > 2 && unface(x.Args[2]) == h || isCall(x, "incoming.RunIncomingPeer") && mentions(x, h) {
			return true
		}
	}
	return false
}

// closers: closing a store closes its database.
func (c *Ctx) closers() {
	for _, at := range [][2]string{{"chains", "Linkage"}, {"peers", "Registry"}} {
		fn := c.root(at[0], at[1], "Close")
		if fn == nil {
			continue
		}
		paths, _ := c.runtimePaths(rtRoot{fn, at[0]})
		for _, p := range paths {
			if p.Kind != "return" {
				continue
			}
			n := 0
			for _, x := range p.Events {
				if isCall(x, "(*leveldb.DB).Close") && ofReceiver(fn, x.Args[0]) {
					n++
				}
			}
			c.check(n > 0, "closers", fnName(c, fn), p.Pos, p, "the database is not closed")
		}
	}
}

// ofReceiver: the term is reached from the receiver through fields only.
func ofReceiver(fn *ssa.Function, t *Term) bool {
	for t != nil {
		switch t.Op {
		case "load", "field", "faddr":
			t = t.Args[0]
			continue
		case "param":
			return len(fn.Params) > 0 && t.Sym == fn.Params[0].Name()
		}
		return false
	}
	return false
}
