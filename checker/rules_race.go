package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C28: what several parts of the detector running at the same time use is not changed by one of them unless a lock
// that all of them hold protects it.

type raceThread struct {
	name  string
	multi bool // several of them run at the same time
	main  bool
	by    *raceThread
}

func (t *raceThread) startedBy(in map[*raceThread]bool) bool {
	for ; t != nil; t = t.by {
		if in[t] {
			return true
		}
	}
	return false
}

type raceAccess struct {
	thr   *raceThread
	key   string
	write bool
	locks map[string]bool
	ev    *Event
	path  *Path
	fn    string
	later map[*raceThread]bool // threads not yet started, with those they start
	over  bool                 // after the threads of the component were waited for
}

type racer struct {
	c       *Ctx
	accs    []raceAccess
	visited map[string]bool
	nThr    int
	threads map[string]*raceThread
	covered map[*ssa.Function]bool
	actions []*ssa.Function // what state machines do when an event is fired
}

// sharedKey names what an address stands for, if it may belong to something that is not the thread's own.
func sharedKey(a *Term) string {
	if a == nil || !sharedRoot(a) {
		return ""
	}
	switch a.Op {
	case "faddr":
		n, ok := types.Unalias(deref(typOr(a.Args[0]))).(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			return ""
		}
		return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + a.Sym
	case "iaddr":
		return contentKey(a.Args[0])
	case "global", "param", "free":
		return a.String()
	}
	return ""
}

// contentKey names the content of a list or map.
func contentKey(v *Term) string {
	if v == nil {
		return ""
	}
	if a := loadAddr(v); a != nil {
		if k := sharedKey(a); k != "" {
			return k + "[]"
		}
		return ""
	}
	switch v.Op {
	case "slice":
		return contentKey(v.Args[0])
	case "append", "concat":
		return contentKey(v.Args[0])
	case "global":
		return v.String() + "[]"
	}
	return ""
}

// sharedRoot: the address belongs to a parameter, a captured variable or a global.
func sharedRoot(a *Term) bool {
	for a != nil {
		switch a.Op {
		case "param", "global":
			return true
		case "faddr", "iaddr", "load", "field", "index", "lookup", "slice", "typeassert", "iface", "havoc":
			if len(a.Args) == 0 {
				return false
			}
			if a.Op == "havoc" {
				a = a.Args[len(a.Args)-1]
				continue
			}
			a = a.Args[0]
		case "mapval":
			if len(a.Args) == 0 {
				return false
			}
			a = a.Args[0]
		default:
			return false
		}
	}
	return false
}

func lockKey(l *Term) string {
	if l.Op == "faddr" {
		return typeOfOwner(l) + "." + l.Sym
	}
	return l.String()
}

func (r *racer) visit(thr *raceThread, fn *ssa.Function, pkg string, locks map[string]bool) {
	if fn == nil || fn.Blocks == nil {
		return
	}
	key := thr.name + "|" + fnName(r.c, fn) + "|" + fmt.Sprint(len(locks))
	if r.visited[key] {
		return
	}
	r.visited[key] = true
	ps, e := r.c.runtimePaths(rtRoot{fn, pkg})
	for f := range e.seen {
		r.covered[f] = true
	}
	r.run(thr, fn, ps, locks, nil, false)
}

// run goes along the paths of a function that a thread executes.
func (r *racer) run(thr *raceThread, fn *ssa.Function, ps []*Path, locks map[string]bool, later map[*raceThread]bool, inLoop bool) {
	name := fnName(r.c, fn)
	for _, p := range ps {
		held := map[string]bool{}
		for k := range locks {
			held[k] = true
		}
		// the threads this path is going to start
		after := map[*raceThread]bool{}
		for k := range later {
			after[k] = true
		}
		for _, ev := range p.Events {
			if ev.Kind == "go" && thr.main {
				after[r.thread(thr, name, ev, inLoop)] = true
			}
		}
		over := false
		for _, ev := range p.Events {
			if l, what := lockCall(ev); l != nil {
				h := map[string]bool{}
				for k := range held {
					h[k] = true
				}
				switch what {
				case "Lock", "RLock":
					h[lockKey(l)] = true
					if what == "RLock" {
						h[lockKey(l)+" (shared)"] = true
					}
				default:
					delete(h, lockKey(l))
					delete(h, lockKey(l)+" (shared)")
				}
				held = h
				continue
			}
			acc := func(k string, write bool) {
				if k == "" {
					return
				}
				lt := map[*raceThread]bool{}
				for t := range after {
					lt[t] = true
				}
				r.accs = append(r.accs, raceAccess{thr, k, write, held, ev, p, name, lt, over})
			}
			switch ev.Kind {
			case "store":
				acc(sharedKey(ev.Args[0]), true)
			case "mapset", "mapdel":
				acc(contentKey(ev.Args[0]), true)
			case "access":
				switch ev.Fn {
				case "load":
					acc(sharedKey(ev.Args[0]), false)
				default:
					acc(contentKey(ev.Args[0]), false)
				}
			case "append":
				if len(ev.Args) > 0 {
					acc(contentKey(ev.Args[0]), false)
				}
			case "loop":
				r.run(thr, fn, ev.Loop.Bodies, held, after, true)
			case "go":
				t := r.thread(thr, name, ev, inLoop || thr.multi)
				delete(after, t)
				r.run(t, fn, ev.Bodies, nil, nil, false)
			case "call":
				over = over || thr.main && isWait(ev)
				if strings.HasPrefix(ev.Fn, smPrefix+"Fire") {
					for _, g := range r.actions {
						r.visit(thr, g, g.Pkg.Pkg.Name(), held)
					}
				}
				if len(ev.Args) > 0 && unsafeLibrary(typOr(unface(ev.Args[0]))) {
					if a := loadAddr(ev.Args[0]); a != nil && sharedKey(a) != "" {
						acc(sharedKey(a)+" (its state)", true)
					} else if k := sharedKey(ev.Args[0]); k != "" {
						acc(k+" (its state)", true)
					}
				}
				if ev.Call != nil {
					if g := r.c.p.unwrap(ev.Call.Common().StaticCallee()); g != nil && g.Pkg != nil && r.c.p.byPkg[g.Pkg.Pkg] {
						r.visit(thr, g, g.Pkg.Pkg.Name(), held)
					}
					if cc := ev.Call.Common(); cc.IsInvoke() {
						for _, g := range r.c.implementers(cc) {
							r.visit(thr, g, g.Pkg.Pkg.Name(), held)
						}
					}
				}
			}
		}
	}
}

// implementers are the module's methods a call through an interface may reach.
func (c *Ctx) implementers(cc *ssa.CallCommon) []*ssa.Function {
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return nil
	}
	var r []*ssa.Function
	for _, pk := range []string{"main", "loading", "api", "chains", "peers"} {
		s := c.p.ssa[pk]
		if s == nil {
			continue
		}
		for _, n := range s.Pkg.Scope().Names() {
			tn, ok := s.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			if !types.Implements(types.NewPointer(tn.Type()), it) {
				continue
			}
			if g := c.p.fn(pk, n, cc.Method.Name()); g != nil && g.Blocks != nil && g.Pkg != nil && c.p.byPkg[g.Pkg.Pkg] {
				r = append(r, g)
			}
		}
	}
	return r
}

func unsafeLibrary(T types.Type) bool {
	for _, n := range [][2]string{{"rand", "Rand"}, {"bytes", "Buffer"}, {"strings", "Builder"}, {"bufio", "Writer"}, {"bufio", "Reader"}} {
		if isNamed(T, n[0], n[1]) {
			return true
		}
	}
	return false
}

func (r *racer) thread(by *raceThread, name string, ev *Event, multi bool) *raceThread {
	k := name + " " + r.c.p.pos(ev.Pos) + " " + ev.Fn
	t := r.threads[k]
	if t == nil {
		t = &raceThread{name: "the goroutine started at " + r.c.p.pos(ev.Pos), by: by}
		r.threads[k] = t
	}
	t.multi = t.multi || multi
	return t
}

func (c *Ctx) components2() []*types.Named {
	var r []*types.Named
	for _, pk := range []string{"main", "loading", "api"} {
		s := c.p.ssa[pk]
		if s == nil {
			continue
		}
		for _, n := range s.Pkg.Scope().Names() {
			tn, ok := s.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) {
				continue
			}
			ms := types.NewMethodSet(types.NewPointer(nt))
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == "Run" {
					r = append(r, nt)
				}
			}
		}
	}
	return r
}

// machineActions are the functions handed to state machines.
func (c *Ctx) machineActions() []*ssa.Function {
	var r []*ssa.Function
	for _, pk := range []string{"main", "loading", "api"} {
		for _, fn := range c.p.pkgFuncs(pk) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					f := call.Common().StaticCallee()
					if f == nil || f.Pkg == nil || f.Pkg.Pkg.Name() != "stateless" {
						continue
					}
					for _, a := range call.Common().Args {
						if ct, ok := a.(*ssa.ChangeType); ok {
							a = ct.X
						}
						var g *ssa.Function
						switch x := a.(type) {
						case *ssa.Function:
							g = x
						case *ssa.MakeClosure:
							g, _ = x.Fn.(*ssa.Function)
						}
						if g = c.p.unwrap(g); g != nil && g.Pkg != nil && c.p.byPkg[g.Pkg.Pkg] {
							r = append(r, g)
						}
					}
				}
			}
		}
	}
	return r
}

func runC28(c *Ctx) {
	r := &racer{c: c, visited: map[string]bool{}, threads: map[string]*raceThread{}, covered: map[*ssa.Function]bool{}, actions: c.machineActions()}
	main := &raceThread{name: "the main goroutine", main: true}
	for _, n := range c.components2() {
		for _, m := range []string{"Run", "Shutdown"} {
			fn := c.p.fn(n.Obj().Pkg().Name(), n.Obj().Name(), m)
			if fn == nil {
				continue
			}
			r.visit(main, fn, n.Obj().Pkg().Name(), nil)
		}
	}
	c.atLeastN("component", len(c.components2()), 4, "parts that run on their own")
	// what others call whenever they like: handlers of requests and functions handed to libraries
	n := 0
	for _, rt := range c.runtimeRoots() {
		if isEntry(rt.fn) || r.covered[rt.fn] {
			continue
		}
		n++
		r.visit(&raceThread{name: "the caller of " + fnName(c, rt.fn), multi: true}, rt.fn, rt.pkg, nil)
	}
	c.atLeastN("callback", n, 3, "functions called from outside")
	r.report()
	for _, pk := range []string{"main", "loading", "api", "chains", "peers"} {
		for _, fn := range c.p.pkgFuncs(pk) {
			c.captured(fn)
		}
	}
}

func (c *Ctx) atLeastN(rule string, n, want int, what string) {
	c.check(n >= want, rule, "module", 0, nil, "only %d %s are found", n, what)
}

func (r *racer) report() {
	c := r.c
	byKey := map[string][]raceAccess{}
	for _, a := range r.accs {
		byKey[a.key] = append(byKey[a.key], a)
	}
	var keys []string
	for k := range byKey {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		as := byKey[k]
		for _, a := range as {
			if !a.write {
				continue
			}
			var with *raceAccess
			for i := range as {
				b := as[i]
				if a.thr == b.thr && !a.thr.multi || b.thr.startedBy(a.later) || a.thr.startedBy(b.later) || a.over && !b.thr.multi || b.over && !a.thr.multi {
					continue
				}
				common := false
				for l := range a.locks {
					if b.locks[l] && !strings.HasSuffix(l, " (shared)") && !a.locks[l+" (shared)"] {
						common = true
					}
				}
				if !common {
					with = &as[i]
					break
				}
			}
			if with == nil {
				c.ok("exclusive")
				continue
			}
			c.bad("exclusive", k, a.ev.Pos, a.path, "%s changes %s while %s may use it in %s", a.thr.name, k, with.thr.name, c.p.pos(with.ev.Pos))
		}
	}
	c.note("%d uses of %d places by %d goroutines", len(r.accs), len(keys), len(r.threads)+1)
}

// captured: a variable that a goroutine shares with the function that started it is not changed by one while the other
// may use it.
func (c *Ctx) captured(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			var clo *ssa.MakeClosure
			switch x := in.(type) {
			case *ssa.Go:
				clo, _ = x.Call.Value.(*ssa.MakeClosure)
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && startsGoroutine(f) {
					clo, _ = x.Call.Args[len(x.Call.Args)-1].(*ssa.MakeClosure)
				}
			}
			if clo == nil {
				continue
			}
			g := clo.Fn.(*ssa.Function)
			for j, bind := range clo.Bindings {
				al, ok := bind.(*ssa.Alloc)
				if !ok {
					continue
				}
				if _, ch := deref(al.Type()).Underlying().(*types.Chan); ch {
					continue
				}
				inW, inR := cellUses(g.FreeVars[j])
				again := reaches(b, b, al.Block()) // the same variable is handed to the next goroutine too
				outW, outR := usesAfter(al, clo, b, i)
				bad := inW && (again || outW || outR) || outW && (inR || inW)
				c.check(!bad || guardedBody(g), "captured", fnName(c, fn)+" "+al.Comment, in.Pos(), nil,
					"the variable %s is changed while another goroutine may use it", al.Comment)
			}
		}
	}
}

func startsGoroutine(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Name() {
	case "errgroup":
		return f.Name() == "Go" || f.Name() == "TryGo"
	case "context":
		return f.Name() == "AfterFunc"
	case "time":
		return f.Name() == "AfterFunc"
	case "sync":
		return f.Name() == "Go"
	}
	return false
}

// guardedBody: the goroutine takes a lock before it does anything else with its variables.
func guardedBody(g *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if f := call.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" && strings.HasSuffix(f.Name(), "Lock") {
					return true
				}
			}
		}
	}
	return false
}

// cellUses tells whether a variable given by its address is written and read.
func cellUses(v ssa.Value) (w, r bool) {
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == v {
				w = true
			} else {
				r = true
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			a, b := cellUses(ref.(ssa.Value))
			w, r = w || a, r || b
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v {
					p, q := cellUses(x.Fn.(*ssa.Function).FreeVars[i])
					w, r = w || p, r || q
				}
			}
		case *ssa.DebugRef:
		default:
			r = true
		}
	}
	return w, r
}

// usesAfter tells whether the function uses the variable after it started the goroutine.
func usesAfter(al *ssa.Alloc, clo *ssa.MakeClosure, b *ssa.BasicBlock, at int) (w, r bool) {
	for _, ref := range *al.Referrers() {
		if ref == ssa.Instruction(clo) {
			continue
		}
		rb := ref.Block()
		after := rb != b && reaches(b, rb, al.Block())
		if rb == b {
			for i, in := range b.Instrs {
				if in == ref && i > at {
					after = true
				}
			}
			after = after || reaches(b, b, al.Block())
		}
		if !after {
			continue
		}
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == ssa.Value(al) {
				w = true
			} else {
				r = true
			}
		case *ssa.MakeClosure:
			for i, bd := range x.Bindings {
				if bd == ssa.Value(al) {
					p, q := cellUses(x.Fn.(*ssa.Function).FreeVars[i])
					w, r = w || p, r || q
				}
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			p, q := cellUses(ref.(ssa.Value))
			w, r = w || p, r || q
		case *ssa.DebugRef:
		default:
			r = true
		}
	}
	return w, r
}

// reaches: there is a way from the end of one block to another that does not make the variable anew.
func reaches(from, to, fresh *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == fresh && s != to || seen[s] {
				continue
			}
			if s == to {
				return s != fresh
			}
			seen[s] = true
			if rec(s) {
				return true
			}
		}
		return false
	}
	return rec(from)
}
