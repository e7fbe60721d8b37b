package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock discipline over path summaries: which locks are held at every effect of an operation.

type lockState struct {
	mode map[*Term]string // "R" or "W"
	acqs int
}

func (ls lockState) clone() lockState {
	m := map[*Term]string{}
	for k, v := range ls.mode {
		m[k] = v
	}
	return lockState{m, ls.acqs}
}

func lockCall(ev *Event) (lock *Term, what string) {
	if ev.Kind != "call" || len(ev.Args) == 0 {
		return nil, ""
	}
	for _, t := range []string{"(*sync.Mutex).", "(*sync.RWMutex)."} {
		if strings.HasPrefix(ev.Fn, t) {
			return ev.Args[0], strings.TrimPrefix(ev.Fn, t)
		}
	}
	return nil, ""
}

type lockVisitor struct {
	c      *Ctx
	name   string
	event  func(ev *Event, p *Path, ls lockState)
	report bool
}

// run walks a path and returns the lock state at its end.
func (v *lockVisitor) run(p *Path, ls lockState) lockState {
	for _, ev := range p.Events {
		if l, what := lockCall(ev); l != nil {
			switch what {
			case "Lock", "RLock":
				_, held := ls.mode[l]
				v.c.check(!held, "lock-once", v.name, ev.Pos, p, "the lock %v is acquired while it is already held: the operation blocks forever", l)
				ls = ls.clone()
				ls.mode[l] = map[string]string{"Lock": "W", "RLock": "R"}[what]
				ls.acqs++
			case "Unlock", "RUnlock":
				m, held := ls.mode[l]
				v.c.check(held && m == map[string]string{"Unlock": "W", "RUnlock": "R"}[what], "lock-paired", v.name, ev.Pos, p, "%s of %v, which is not held that way", what, l)
				ls = ls.clone()
				delete(ls.mode, l)
			default:
				v.c.check(false, "lock-known", v.name, ev.Pos, p, "the effect of %s on mutual exclusion is not decided", what)
			}
			continue
		}
		v.event(ev, p, ls)
		switch ev.Kind {
		case "loop":
			for _, b := range ev.Loop.Bodies {
				end := v.run(b, ls.clone())
				same := len(end.mode) == len(ls.mode)
				for k, m := range ls.mode {
					same = same && end.mode[k] == m
				}
				if b.Kind == "back" {
					v.c.check(same, "lock-balanced", v.name, ev.Pos, b, "an iteration of a loop ends with other locks than it started with")
					if end.acqs != ls.acqs {
						ls.acqs += 2 // acquired repeatedly
					}
				}
			}
		case "go":
			for _, b := range ev.Bodies {
				v.run(b, lockState{mode: map[*Term]string{}})
			}
		}
	}
	return ls
}

// lockOwner is the object whose field a lock is: recv.mu or recv.a.mu
func recvField(fn *ssa.Function, t *Term) (string, bool) {
	if len(fn.Params) == 0 {
		return "", false
	}
	recv := fn.Params[0].Name()
	var f []string
	for t != nil {
		switch t.Op {
		case "load":
			t = t.Args[0]
		case "faddr":
			f = append(f, t.Sym)
			t = t.Args[0]
		case "field":
			f = append(f, t.Sym)
			t = t.Args[0]
		case "param":
			if t.Sym != recv {
				return "", false
			}
			for i, j := 0, len(f)-1; i < j; i, j = i+1, j-1 {
				f[i], f[j] = f[j], f[i]
			}
			return strings.Join(f, "."), true
		default:
			return "", false
		}
	}
	return "", false
}

type lockRule struct {
	pkg, typ string
	exempt   map[string]bool // methods outside of the discipline (end of life)
	// guard classifies an effect: "" no lock needed, "R" or "W"
	guard func(fn *ssa.Function, ev *Event) string
	// mutates tells effects that change guarded state (for the single critical section rule)
	mutates func(fn *ssa.Function, ev *Event) bool
}

func (c *Ctx) lockDiscipline(r lockRule) {
	locks := map[string]token.Pos{}
	for _, fn := range c.p.methods(r.pkg, r.typ, true) {
		if r.exempt[fn.Name()] {
			continue
		}
		name := fnName(c, fn)
		paths, _ := c.paths(fn)
		c.check(len(fn.Params) > 0, "receiver", name, fn.Pos(), nil, "no receiver")
		if _, ptr := fn.Params[0].Type().(*types.Pointer); !ptr {
			if T := c.p.namedType(r.pkg, r.typ); T != nil && copiesLock(T) {
				c.bad("lock-copied", name, fn.Pos(), nil, "the method has a value receiver, every call locks its own copy of the lock")
			}
		}
		for _, p := range paths {
			if p.Kind == "exit" {
				continue
			}
			mut := false
			sections := map[int]bool{}
			v := &lockVisitor{c: c, name: name}
			v.event = func(ev *Event, q *Path, ls lockState) {
				g := r.guard(fn, ev)
				if r.mutates(fn, ev) {
					mut = true
				}
				if g == "" {
					return
				}
				sections[ls.acqs] = true
				okv := false
				for l, m := range ls.mode {
					f, own := recvField(fn, l)
					if own && (m == "W" || g == "R") {
						okv = true
						locks[f] = ev.Pos
					}
				}
				what := "read"
				if g == "W" {
					what = "changed"
				}
				c.check(okv, "guarded", name, ev.Pos, q, "shared state is %s by %s %s without the lock that protects it", what, ev.Kind, ev.Fn)
			}
			end := v.run(p, lockState{mode: map[*Term]string{}})
			if p.Kind == "return" {
				c.check(len(end.mode) == 0, "released", name, p.Pos, p, "the operation returns while it holds a lock: every later operation blocks")
				if mut {
					c.check(end.acqs == 1, "one-section", name, p.Pos, p, "a modification is spread over %d critical sections: decisions made in one are applied in another", end.acqs)
				} else {
					c.check(len(sections) < 2, "one-section", name, p.Pos, p, "an answer is put together from what was read in %d critical sections", len(sections))
				}
			}
		}
		c.ok("operation")
	}
	var names []string
	for f := range locks {
		names = append(names, f)
	}
	c.check(len(locks) == 1, "one-lock", r.pkg+"."+r.typ, token.NoPos, nil, "operations of %s are protected by %d different locks: %v", r.typ, len(locks), names)
	// the lock itself is never replaced after construction
	for _, fn := range c.p.pkgFuncs(r.pkg) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isNamed(fa.X.Type(), r.pkg, r.typ) {
					continue
				}
				if madeHere(fa.X) != nil {
					continue // The constructor's object is not shared yet.
				}
				f := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field)
				c.check(!locks2(locks, f.Name()), "lock-kept", fnName(c, fn), in.Pos(), nil, "the lock is replaced while it may be held")
			}
		}
	}
	c.atLeast("operation", 8, "operations of "+r.typ)
	c.atLeast("guarded", 20, "guarded effects of "+r.typ)
}

func locks2(m map[string]token.Pos, f string) bool { _, ok := m[f]; return ok }

func copiesLock(T types.Type) bool {
	su, ok := T.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < su.NumFields(); i++ {
		if n, ok := su.Field(i).Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
			return true
		}
	}
	return false
}

func dbEvent(ev *Event) string {
	if ev.Kind != "call" {
		return ""
	}
	switch {
	case strings.HasSuffix(ev.Fn, ".Release"):
		return ""
	case isCall(ev, "(*leveldb.DB).Write", "(*leveldb.DB).Put", "(*leveldb.DB).Delete"):
		return "W"
	case strings.HasPrefix(ev.Fn, "(*leveldb.DB)."), strings.HasPrefix(ev.Fn, "(*leveldb.Snapshot)."), strings.HasPrefix(ev.Fn, "(iterator."):
		return "R"
	}
	return ""
}

func runC06(c *Ctx) {
	mutable := c.mutableFields("chains", "Linkage")
	field := func(fn *ssa.Function, t *Term) bool {
		f, own := recvField(fn, t)
		return own && mutable[f]
	}
	c.lockDiscipline(lockRule{pkg: "chains", typ: "Linkage", exempt: map[string]bool{"Close": true},
		guard: func(fn *ssa.Function, ev *Event) string {
			switch ev.Kind {
			case "mapset", "mapdel", "store":
				if field(fn, ev.Args[0]) {
					return "W"
				}
			case "access":
				if field(fn, ev.Args[0]) {
					return "R"
				}
			}
			return dbEvent(ev)
		},
		mutates: func(fn *ssa.Function, ev *Event) bool {
			switch ev.Kind {
			case "mapset", "mapdel", "store":
				return field(fn, ev.Args[0])
			}
			return dbEvent(ev) == "W"
		},
	})
}

// mutableFields are the fields that operations on an object change.
func (c *Ctx) mutableFields(pkg, typ string) map[string]bool {
	r := map[string]bool{}
	for _, fn := range c.p.methods(pkg, typ, true) {
		paths, _ := c.paths(fn)
		walk(paths, func(s site) {
			switch s.ev.Kind {
			case "mapset", "mapdel", "store":
				if f, own := recvField(fn, s.ev.Args[0]); own && f != "" {
					r[f] = true
				}
			}
		})
	}
	return r
}

// ---- C08 ----

func runC08(c *Ctx) {
	T := c.p.namedType("peers", "Registry")
	if T == nil {
		c.bad("anchor", "peers.Registry", token.NoPos, nil, "the peers registry does not exist")
		return
	}
	// fields changed after construction
	mutable := map[string]bool{}
	for _, fn := range c.p.methods("peers", "Registry", true) {
		paths, _ := c.paths(fn)
		walk(paths, func(s site) {
			var a *Term
			switch s.ev.Kind {
			case "mapset", "mapdel", "store":
				a = s.ev.Args[0]
			default:
				return
			}
			if f, own := recvField(fn, a); own && f != "" {
				mutable[strings.SplitN(f, ".", 2)[0]] = true
			}
		})
	}
	c.check(len(mutable) >= 1, "tables", "peers.Registry", token.NoPos, nil, "no table of connections is kept")
	field := func(fn *ssa.Function, t *Term) bool {
		f, own := recvField(fn, t)
		return own && mutable[strings.SplitN(f, ".", 2)[0]]
	}
	c.lockDiscipline(lockRule{pkg: "peers", typ: "Registry", exempt: map[string]bool{"Close": true},
		guard: func(fn *ssa.Function, ev *Event) string {
			switch ev.Kind {
			case "mapset", "mapdel", "store":
				if field(fn, ev.Args[0]) {
					return "W"
				}
			case "access":
				if field(fn, ev.Args[0]) {
					return "R"
				}
			}
			return dbEvent(ev)
		},
		mutates: func(fn *ssa.Function, ev *Event) bool {
			switch ev.Kind {
			case "mapset", "mapdel", "store":
				return field(fn, ev.Args[0])
			}
			return dbEvent(ev) == "W"
		},
	})
	// the tables never leave the registry
	for _, fn := range c.p.methods("peers", "Registry", true) {
		paths, _ := c.paths(fn)
		for _, p := range paths {
			if p.Kind != "return" {
				continue
			}
			for _, r := range p.Results {
				esc := false
				if r != nil && r.Op == "load" {
					esc = field(fn, r)
				}
				c.check(!esc, "no-escape", fnName(c, fn), p.Pos, p, "an internal table of the registry is handed out and used without its lock")
			}
		}
	}
}
