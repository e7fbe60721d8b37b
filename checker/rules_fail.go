package main

import (
	"go/token"
	"go/types"
	"strings"
)

// ---- C22: failures of the store are reported, with their cause ----

func runC22(c *Ctx) {
	for _, rt := range c.runtimeRoots("chains", "peers") {
		paths, e := c.runtimePaths(rt)
		name := fnName(c, rt.fn)
		for _, p := range paths {
			if p.Kind == "return" {
				c.failures(e, p, nil, name, fallible)
				c.iterated(e, p, name)
			}
		}
		levels(paths, func(p *Path) {
			if p.Kind != "panic" && p.Kind != "exit" {
				c.converted(e, p, name)
			}
		})
	}
	for _, rt := range c.runtimeRoots() {
		paths, e := c.runtimePaths(rt)
		name := fnName(c, rt.fn)
		levels(paths, func(p *Path) {
			if p.Kind != "panic" && p.Kind != "exit" {
				c.looked(e, p, name)
			}
		})
	}
	c.atLeast("reported", 2000, "operations of the store that may fail")
	c.atLeast("iteration", 10, "iterations over the store")
	c.atLeast("looked-at", 50, "calls of the stores")
}

// fallible lists the operations of the databases and of the decoding of what they hold.
func fallible(ev *Event) bool {
	if ev.Kind != "call" || strings.HasSuffix(ev.Fn, ").Close") {
		return false
	}
	for _, pre := range []string{"(*leveldb.DB).", "(*leveldb.Snapshot).", "leveldb.", "cbor.", "(*leveldb.Transaction)."} {
		if strings.HasPrefix(ev.Fn, pre) {
			return true
		}
	}
	return strings.HasSuffix(ev.Fn, ".UnmarshalBinary") || strings.HasSuffix(ev.Fn, ".Iterator).Error") || strings.HasSuffix(ev.Fn, "CommonIterator).Error")
}

// carries: the error is the cause or wraps it.
func carries(t, cause *Term) bool {
	t = unface(t)
	if same(t, cause) {
		return true
	}
	switch t.Op {
	case "errorf":
		if len(t.Args) > 0 && t.Args[0].Op == "wraps" {
			for _, w := range t.Args[0].Args {
				if carries(w, cause) {
					return true
				}
			}
		}
	case "call", "ucall":
		n := callName(t)
		if n == "errors.Join" || strings.HasSuffix(n, ".Wrap") || strings.HasSuffix(n, ".Wrapf") || strings.HasSuffix(n, "errors.WithStack") {
			return t.any(func(x *Term) bool { return same(x, cause) })
		}
	}
	return false
}

// failures: every failure on the path is returned, wrapped, unless it says that a key is not there.
func (c *Ctx) failures(e *Engine, p *Path, loop *Event, name string, which func(*Event) bool) {
	seen := map[*Term]bool{}
	hasErr := loop == nil && len(p.Results) > 0 && isErrorType(typOr(p.errResult())) || returnsError(p)
	for _, ev := range p.Events {
		if ev.Loop != nil {
			for _, b := range ev.Loop.Bodies {
				c.failures(e, b, ev, name, which)
			}
		}
		if ev.Kind == "go" {
			for _, b := range ev.Bodies {
				c.failures(e, b, ev, name, which)
			}
		}
		if !which(ev) {
			continue
		}
		err := errOf(e, ev)
		if err == nil {
			continue
		}
		seen[err] = true
		at := c.at(ev)
		if e.knownNil(p.Facts, err) {
			c.ok("reported")
			continue
		}
		if notFound(e, p, err) {
			c.ok("reported")
			continue
		}
		failed := e.knownNonNil(p.Facts, err)
		switch {
		case loop != nil:
			c.check(leftBehind(p, loop, err), "reported", name, ev.Pos, p, "%s: a failure is ignored in a loop", at)
		case hasErr:
			r := p.errResult()
			if e.knownNil(p.Facts, r) {
				c.bad("reported", name, ev.Pos, p, "%s: success is reported although this may have failed", at)
				continue
			}
			c.check(carries(r, err), "reported", name, ev.Pos, p, "%s: the error returned, %v, does not wrap the failure", at, r)
		default:
			c.check(failed, "reported", name, ev.Pos, p, "%s: nothing looks whether this failed", at)
		}
	}
	// what is found out about records after they were read
	for _, f := range p.own() {
		a := f.Atom
		if f.Val || a.Op != "eq" || a.Args[1].Op != "nil" || seen[a.Args[0]] || !storedError(a.Args[0]) || notFound(e, p, a.Args[0]) {
			continue
		}
		err := a.Args[0]
		switch {
		case loop != nil:
			c.check(leftBehind(p, loop, err), "reported", name, p.Pos, p, "%v: a failure is ignored in a loop", err)
		case hasErr:
			r := p.errResult()
			c.check(carries(r, err), "reported", name, p.Pos, p, "the error returned, %v, does not wrap the failure %v", r, err)
		}
	}
}

// storedError: the error says that something stored cannot be read, or that something cannot be made ready for storing.
func storedError(t *Term) bool {
	return t.Typ != nil && isErrorType(t.Typ) && (t.Op == "ext" || t.Op == "call" || t.Op == "ucall") && t.any(func(x *Term) bool {
		n := callName(x)
		return x.Op == "get" || strings.HasPrefix(n, "cbor.") || strings.HasSuffix(n, "Iterator).Value") || strings.HasSuffix(n, "Iterator).Key")
	})
}

// converted: what is made of stored data by a conversion that may fail is used only after the failure was ruled out.
func (c *Ctx) converted(e *Engine, p *Path, name string) {
	done := map[*Term]bool{}
	var look func(x *Term, facts []Fact, pos token.Pos)
	look = func(x *Term, facts []Fact, pos token.Pos) {
		if x == nil || done[x] {
			return
		}
		done[x] = true
		for _, a := range x.Args {
			look(a, facts, pos)
		}
		if x.Op != "ext" || x.Args[0].Op != "call" && x.Args[0].Op != "ucall" {
			return
		}
		tp, ok := x.Args[0].Typ.(*types.Tuple)
		if !ok || tp.Len() < 2 || !isErrorType(tp.At(tp.Len()-1).Type()) {
			return
		}
		err := e.tt.mk("ext", string(rune('0'+tp.Len()-1)), tp.At(tp.Len()-1).Type(), x.Args[0])
		if same(x, err) || !storedError(err) {
			return
		}
		c.check(e.knownNil(facts, err), "converted", name, pos, p, "%s: the result is used, whether it failed or not", callName(x.Args[0]))
	}
	for _, ev := range p.Events {
		if ev.Kind == "enter" {
			continue
		}
		f := p.Facts[:min(ev.NFacts, len(p.Facts))]
		for _, a := range ev.Args {
			look(a, f, ev.Pos)
		}
		for _, a := range ev.Vals {
			look(a, f, ev.Pos)
		}
	}
	for _, r := range p.Results {
		look(r, p.Facts, p.Pos)
	}
}

func returnsError(p *Path) bool {
	if p.Fn == nil {
		return false
	}
	r := p.Fn.Signature.Results()
	return r.Len() > 0 && isErrorType(r.At(r.Len()-1).Type())
}

// leftBehind: what the iteration leaves behind has the failure in it.
func leftBehind(p *Path, loop *Event, err *Term) bool {
	if loop.Loop == nil {
		return false
	}
	has := func(t *Term) bool { return t != nil && t.any(func(x *Term) bool { return same(x, err) }) }
	for _, phi := range loop.Loop.Phis {
		for _, b := range phi.Backs {
			if has(b) {
				return true
			}
		}
	}
	for _, a := range loop.Loop.Mod {
		if has(p.St.mem[a]) {
			return true
		}
	}
	return false
}

func notFound(e *Engine, p *Path, err *Term) bool {
	for _, f := range p.Facts {
		if f.Val && f.Atom.Op == "errorsis" && same(f.Atom.Args[0], err) && isGlobalLoad(f.Atom.Args[1], "leveldb.ErrNotFound") {
			return true
		}
	}
	return false
}

// iterated: when an iteration over the store came to its end without an error of its own, the iterator was asked for one.
func (c *Ctx) iterated(e *Engine, p *Path, name string) {
	for i, ev := range p.Events {
		if ev.Loop == nil {
			continue
		}
		for _, f := range p.Facts[min(ev.NFacts, len(p.Facts)):] {
			a := f.Atom
			n := callName(a)
			if f.Val || !strings.HasSuffix(n, ").Next") && !strings.HasSuffix(n, ").Valid") || len(a.Args) == 0 {
				continue
			}
			it := a.Args[0]
			if !strings.HasSuffix(callName(it), ").NewIterator") || !madeOn(p, it) {
				continue
			}
			asked, pos := false, ev.Pos
			for _, x := range p.Events[i:] {
				if isCallSuffix(x, ").Error") && same(unface(x.Args[0]), it) {
					asked = true
					pos = x.Pos
				}
			}
			c.check(asked, "iteration", name, pos, p, "the iteration may have ended because of a failure, nothing asks for it")
			break
		}
	}
}

func madeOn(p *Path, it *Term) bool {
	for _, ev := range p.Events {
		if ev.Res == it {
			return true
		}
	}
	return false
}

// ---- callers of the stores ----

func isStoreCall(ev *Event) bool {
	if ev.Kind != "call" || strings.HasSuffix(ev.Fn, ").Close") {
		return false
	}
	n := strings.TrimPrefix(strings.TrimPrefix(ev.Fn, "("), "*")
	for _, pk := range []string{"chains.", "peers.", "loading."} {
		if strings.HasPrefix(n, pk) {
			return true
		}
	}
	return false
}

// looked: whether a call of a store failed is looked at or handed on, and what a failed call returned besides is not used.
func (c *Ctx) looked(e *Engine, p *Path, name string) {
	for i, ev := range p.Events {
		if !isStoreCall(ev) {
			continue
		}
		err := errOf(e, ev)
		if err == nil {
			continue
		}
		at := c.at(ev)
		nilKnown, bad := e.knownNil(p.Facts, err), e.knownNonNil(p.Facts, err)
		c.check(nilKnown || bad || handedOn(p, i, err), "looked-at", name, ev.Pos, p, "%s: nothing looks whether this failed", at)
		if !bad {
			continue
		}
		if pos, used := usesResult(p, i, ev.Res, err); used {
			c.bad("not-used", name, pos, p, "%s: the result is used although this failed", at)
		} else {
			c.ok("not-used")
		}
	}
}

func handedOn(p *Path, i int, err *Term) bool {
	has := func(t *Term) bool { return t != nil && t.any(func(x *Term) bool { return same(x, err) }) }
	for _, r := range p.Results {
		if has(r) {
			return true
		}
	}
	for _, x := range p.Events[i+1:] {
		for _, a := range x.Args {
			if has(a) {
				return true
			}
		}
	}
	return false
}

// usesResult: something other than the error is taken from the result of the call.
func usesResult(p *Path, i int, res, err *Term) (token.Pos, bool) {
	has := func(t *Term) bool {
		return t != nil && t.any(func(x *Term) bool {
			return x.Op == "ext" && x.Args[0] == res && !same(x, err)
		})
	}
	for _, x := range p.Events[i+1:] {
		if x.Kind == "enter" {
			continue // What a function does with its arguments is seen inside of it.
		}
		for _, a := range x.Args {
			if has(a) {
				return x.Pos, true
			}
		}
		for _, a := range x.Vals {
			if has(a) {
				return x.Pos, true
			}
		}
	}
	for j, r := range p.Results {
		if j < len(p.Results) && has(r) {
			return p.Pos, true
		}
	}
	return token.NoPos, false
}
