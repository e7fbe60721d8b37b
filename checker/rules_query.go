package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24: answering requests changes nothing.

func runC24(c *Ctx) {
	routes := c.routes()
	c.atLeastN("route", len(routes), 6, "routes")
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function, route string)
	visit = func(fn *ssa.Function, route string) {
		if fn == nil || fn.Blocks == nil || seen[fn] {
			return
		}
		seen[fn] = true
		ps, _ := c.runtimePaths(rtRoot{fn, fn.Pkg.Pkg.Name()})
		walk(ps, func(s site) {
			ev := s.ev
			name := fnName(c, fn)
			c.check(dbEvent(ev) != "W", "stores", name, ev.Pos, s.path, "%s: answering writes to a store", route)
			switch ev.Kind {
			case "store":
				k := sharedKey(ev.Args[0])
				c.check(k == "" || foreign(k), "memory", name, ev.Pos, s.path, "%s: answering changes %s", route, k)
			case "mapset", "mapdel":
				k := contentKey(ev.Args[0])
				c.check(k == "" || foreign(k), "memory", name, ev.Pos, s.path, "%s: answering changes %s", route, k)
			case "send", "close":
				c.bad("message", name, ev.Pos, s.path, "%s: answering sends on a channel of the detector", route)
			case "go":
				c.ok("message")
			case "call":
				if ev.Call == nil {
					return
				}
				c.check(!outward(ev), "message", name, ev.Pos, s.path, "%s: answering does %s", route, ev.Fn)
				if g := c.p.unwrap(ev.Call.Common().StaticCallee()); g != nil && g.Pkg != nil && c.p.byPkg[g.Pkg.Pkg] {
					visit(g, route)
				}
				if cc := ev.Call.Common(); cc.IsInvoke() {
					for _, g := range c.implementers(cc) {
						visit(g, route)
					}
				}
			}
		})
	}
	for _, rt := range routes {
		visit(c.p.unwrap(rt.fn), rt.path)
	}
	c.note("%d functions answer %d routes", len(seen), len(routes))
}

// foreign: not a part of the detector, as the request or the answer.
func foreign(key string) bool {
	for _, p := range []string{"main.", "loading.", "api.", "chains.", "peers.", "&"} {
		if strings.HasPrefix(key, p) {
			return false
		}
	}
	return true
}

// outward recognises what reaches connected peers, the process or files.
func outward(ev *Event) bool {
	switch ev.Fn[strings.LastIndexByte(ev.Fn, '.')+1:] {
	case "SendMessage", "Broadcast", "Fire", "Exit", "Kill":
		return true
	}
	return strings.HasPrefix(ev.Fn, "os.") && !strings.HasPrefix(ev.Fn, "os.Get")
}
