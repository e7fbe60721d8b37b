package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// putter describes one of the operations that extend the block store or move a leash.
type putter struct {
	fn     *ssa.Function
	micro  bool
	move   bool
	id     func(t *Term) bool // the accepted block
	ref    func(t *Term) bool // the block it must attach to
	addr   func(t *Term) bool
	refErr string
}

func isParamLoad(t *Term, param, field string) bool {
	// inv.TotalBlockID through a pointer parameter, possibly an embedded field
	t = strip(t)
	if t == nil || t.Op != "load" || t.Args[0].Op != "faddr" || t.Args[0].Sym != field {
		return false
	}
	b := t.Args[0].Args[0]
	for b.Op == "faddr" {
		b = b.Args[0]
	}
	return b.is("param", param)
}

func (c *Ctx) putters() []putter {
	var r []putter
	if fn := c.root("chains", "Linkage", "PutBlock"); fn != nil && len(fn.Params) == 3 {
		bp, ap := fn.Params[1].Name(), fn.Params[2].Name()
		r = append(r, putter{fn: fn, refErr: "chains.ErrParentNotFound",
			id: func(t *Term) bool {
				t = strip(t)
				return (callName(t) == "(*proto.BlockHeader).BlockID" || callName(t) == "(*proto.Block).BlockID") && rootOf(t.Args[0]).is("param", bp)
			},
			ref:  func(t *Term) bool { return isParamLoad(t, bp, "Parent") || paramAddrField(t, bp, "Parent") },
			addr: func(t *Term) bool { return t.is("param", ap) },
		})
	}
	if fn := c.root("chains", "Linkage", "PutMicroBlock"); fn != nil && len(fn.Params) == 3 {
		bp, ap := fn.Params[1].Name(), fn.Params[2].Name()
		r = append(r, putter{fn: fn, micro: true, refErr: "chains.ErrRefNotFound",
			id:   func(t *Term) bool { return isParamLoad(t, bp, "TotalBlockID") || paramAddrField(t, bp, "TotalBlockID") },
			ref:  func(t *Term) bool { return isParamLoad(t, bp, "Reference") || paramAddrField(t, bp, "Reference") },
			addr: func(t *Term) bool { return t.is("param", ap) },
		})
	}
	if fn := c.root("chains", "Linkage", "MoveLeash"); fn != nil && len(fn.Params) == 3 {
		bp, ap := fn.Params[1].Name(), fn.Params[2].Name()
		r = append(r, putter{fn: fn, move: true,
			id:   func(t *Term) bool { return t.is("param", bp) },
			ref:  func(t *Term) bool { return false },
			addr: func(t *Term) bool { return t.is("param", ap) },
		})
	}
	return r
}

// paramAddrField accepts &param.Field used as a method receiver through a pointer.
func paramAddrField(t *Term, param, field string) bool {
	t = strip(t)
	if t == nil || t.Op != "faddr" || t.Sym != field {
		return false
	}
	return rootOf(t).is("param", param)
}

// leashOp recognises an operation on a leash record and gives the address it is keyed by.
func leashOp(o dbOp) (addr *Term, is bool) {
	p, rest, ok := keyOf(o.key)
	if !ok || p != 3 {
		return nil, false
	}
	if len(rest) == 1 && rest[0].is("call", "(netip.Addr).AsSlice") {
		return rest[0].Args[0], true
	}
	return nil, true
}

// found reports whether the facts say that the block for which want holds is stored.
func blockKnown(e *Engine, facts []Fact, want func(*Term) bool, stored bool) bool {
	for _, f := range facts {
		a := f.Atom
		if stored && f.Val && a.Op == "eq" && a.Args[1].Op == "nil" && a.Args[0].Op == "ext" && a.Args[0].Sym == "1" {
			if g := a.Args[0].Args[0]; g.Op == "get" {
				if id := idKey(g.Args[1], 1); id != nil && want(id) {
					return true
				}
			}
		}
		if !stored && f.Val && a.Op == "errorsis" && isGlobalLoad(a.Args[1], "leveldb.ErrNotFound") && a.Args[0].Op == "ext" {
			if g := a.Args[0].Args[0]; g.Op == "get" {
				if id := idKey(g.Args[1], 1); id != nil && want(id) {
					return true
				}
			}
		}
		// db.Has / snapshot.Has
		if a.Op == "ext" && a.Sym == "0" && a.Args[0].Op == "hasKey" && f.Val == stored {
			if id := idKey(a.Args[0].Args[1], 1); id != nil && want(id) {
				return true
			}
		}
	}
	return false
}

func isGlobalLoad(t *Term, name string) bool {
	return t != nil && t.Op == "load" && t.Args[0].is("global", name)
}

// outcome of a returning path with an error result.
type errOutcome int

const (
	errMaybe errOutcome = iota
	errNo
	errYes
)

func (e *Engine) errOutcome(p *Path) errOutcome {
	r := p.errResult()
	if r == nil {
		return errNo
	}
	if e.knownNil(p.Facts, r) {
		return errNo
	}
	if e.knownNonNil(p.Facts, r) {
		return errYes
	}
	return errMaybe
}

// okIfSuccess reports whether a write is known to have succeeded on every run of the path that reports success.
func (e *Engine) okIfSuccess(p *Path, w dbWrite) bool {
	return e.knownNil(p.Facts, w.ev.Res) || p.errResult() == w.ev.Res
}

// ---- C01 ----

func runC01(c *Ctx) {
	for _, pu := range c.putters() {
		paths, e := c.paths(pu.fn)
		name := fnName(c, pu.fn)
		for _, p := range paths {
			if p.Kind != "return" {
				continue
			}
			out := e.errOutcome(p)
			ws, _ := dbWrites(p)
			var last *dbWrite
			var lastOp dbOp
			for i := range ws {
				w := &ws[i]
				for _, o := range w.ops {
					a, is := leashOp(o)
					if !is {
						continue
					}
					c.check(!o.del, "leash-kept", name, o.ev.Pos, p, "a leash record is deleted")
					c.check(a != nil && pu.addr(a), "leash-owner", name, o.ev.Pos, p, "the leash of %v is written instead of the leash of the reporting peer", a)
					if !o.del {
						id := idOfBytes(o.val)
						c.check(id != nil && pu.id(id), "leash-target", name, o.ev.Pos, p, "the leash is set to %v, which is not the accepted block", o.val)
						last, lastOp = w, o
					}
					if out == errYes {
						c.check(e.knownNonNil(p.Facts, w.ev.Res), "no-leash-on-failure", name, o.ev.Pos, p,
							"the leash is written although the operation reports a failure that is not the failure of this write")
					}
				}
			}
			if out != errYes {
				c.check(last != nil && e.okIfSuccess(p, *last), "leash-follows", name, p.Pos, p,
					"the operation can report success without the peer's leash having been written")
			}
			if last != nil && !pu.move {
				stored := blockKnown(e, p.Facts[:min(last.ev.NFacts, len(p.Facts))], pu.id, true)
				for _, w := range ws {
					if w.pos > last.pos {
						continue
					}
					for _, o := range w.ops {
						if id := idKey(o.key, 1); id != nil && !o.del && pu.id(id) && (w.pos == last.pos || e.okIfSuccess(p, w)) {
							stored = true
						}
					}
				}
				c.check(stored, "leash-on-stored-block", name, lastOp.ev.Pos, p, "the leash is moved to a block that is not known to be stored")
			}
		}
	}
	// no other operation touches leashes
	allowed := map[string]bool{"PutBlock": true, "PutMicroBlock": true, "MoveLeash": true}
	for _, fn := range c.linkageRoots() {
		if allowed[fn.Name()] {
			continue
		}
		paths, _ := c.paths(fn)
		for _, p := range paths {
			ws, _ := dbWrites(p)
			for _, w := range ws {
				for _, o := range w.ops {
					_, is := leashOp(o)
					c.check(!is, "leash-only-on-report", fnName(c, fn), o.ev.Pos, p, "a leash is written outside the handling of a peer's report")
				}
			}
		}
		c.ok("leash-only-on-report")
	}
	c.leashReads()
	c.moveLeashCallers()
	c.atLeast("leash-follows", 3, "successful paths that move a leash")
	c.atLeast("leash-target", 3, "leash writes")
}

// linkageRoots are the constructor and all exported methods of Linkage.
func (c *Ctx) linkageRoots() []*ssa.Function {
	r := c.p.methods("chains", "Linkage", true)
	if f := c.p.fn("chains", "", "NewLinkage"); f != nil {
		r = append(r, f)
	}
	return r
}

// leashGet finds the lookup of the leash of address a among the facts: found, absent or failed.
func leashLookup(e *Engine, facts []Fact, addr func(*Term) bool) (get *Term, state string) {
	for _, f := range facts {
		a := f.Atom
		var g *Term
		switch {
		case a.Op == "eq" && a.Args[1].Op == "nil" && a.Args[0].Op == "ext" && a.Args[0].Sym == "1":
			g = a.Args[0].Args[0]
		case a.Op == "errorsis" && a.Args[0].Op == "ext":
			g = a.Args[0].Args[0]
		}
		if g == nil || g.Op != "get" {
			continue
		}
		ad, is := leashOp(dbOp{key: g.Args[1]})
		if !is || ad == nil || !addr(ad) {
			continue
		}
		if a.Op == "eq" && f.Val {
			return g, "found"
		}
		if a.Op == "errorsis" && f.Val && isGlobalLoad(a.Args[1], "leveldb.ErrNotFound") {
			return g, "absent"
		}
	}
	return nil, ""
}

func isGenesisField(t *Term) bool {
	t = strip(t)
	return t != nil && t.Op == "load" && t.Args[0].Op == "faddr" && t.Args[0].Args[0].Op == "param" && isNamed(t.Typ, "proto", "BlockID")
}

func (c *Ctx) leashReads() {
	if fn := c.root("chains", "Linkage", "Leash"); fn != nil {
		ap := fn.Params[1].Name()
		addr := func(t *Term) bool { return t.is("param", ap) }
		paths, e := c.paths(fn)
		for _, p := range paths {
			if p.Kind != "return" || e.errOutcome(p) == errYes {
				continue
			}
			g, state := leashLookup(e, p.Facts, addr)
			switch state {
			case "found":
				v := p.ret(0)
				okv := v != nil && v.Op == "ext" && v.Sym == "0" && callName(v.Args[0]) == "proto.NewBlockIDFromBytes" &&
					v.Args[0].Args[0].is("ext", "0") && v.Args[0].Args[0].Args[0] == g
				c.check(okv, "leash-read", fnName(c, fn), p.Pos, p, "the reported leash %v is not the stored one", v)
			case "absent":
				c.check(isGenesisLike(p.ret(0)), "unleashed-genesis", fnName(c, fn), p.Pos, p, "an unleashed peer is reported on %v instead of the genesis block", p.ret(0))
			default:
				c.check(false, "leash-read", fnName(c, fn), p.Pos, p, "the answer is not derived from the peer's leash record")
			}
		}
	}
	c.unleashed()
	if fn := c.root("chains", "", "NewLinkage"); fn != nil {
		gp := fn.Params[len(fn.Params)-1].Name()
		paths, e := c.paths(fn)
		for _, p := range paths {
			if p.Kind != "return" || e.errOutcome(p) == errYes {
				continue
			}
			l := p.ret(0)
			ok := false
			if l != nil && l.Op == "alloc" {
				if T := c.p.namedType("chains", "Linkage"); T != nil {
					for k, v := range p.St.mem {
						if k.Op == "faddr" && k.Args[0] == l && callName(v) == "(*proto.BlockHeader).BlockID" && genesisParam(v.Args[0], gp, p.St) {
							ok = true
						}
					}
				}
			}
			c.check(ok, "genesis-kept", fnName(c, fn), p.Pos, p, "the constructed linkage does not remember the ID of the given genesis block")
		}
	}
}

// unleashed: that a peer has no leash is an answer, not a failure, for whoever asks about the peer.
func (c *Ctx) unleashed() {
	for _, n := range []string{"Leash", "HasLeash", "LeashScore", "LCB"} {
		fn := c.p.fn("chains", "Linkage", n)
		if fn == nil || fn.Blocks == nil {
			continue
		}
		asked := func(t *Term) bool { return t.Op == "param" && isNamed(t.Typ, "netip", "Addr") }
		paths, e := c.paths(fn)
		for _, p := range paths {
			if p.Kind != "return" {
				continue
			}
			g, state := leashLookup(e, p.Facts, asked)
			if n == "LeashScore" && e.errOutcome(p) != errYes && state != "" {
				s := p.ret(0)
				of := state == "found" && s.any(func(t *Term) bool { return t.is("ext", "0") && t.Args[0] == g }) || state == "absent" && s.any(isGenesisLike)
				c.check(of && endsWithField(strip(s), "Score"), "leash-score", fnName(c, fn), p.Pos, p, "the score of the peer's leash is said to be %v", s)
			}
			if state == "absent" {
				c.check(e.errOutcome(p) != errYes || !carriesAny(p, asked), "unleashed", fnName(c, fn), p.Pos, p, "an error is reported for a peer without a leash")
			}
			if failedLookup(p, asked) && state == "" {
				told := false
				for _, f := range p.Facts {
					told = told || f.Atom.Op == "errorsis" && !f.Val && f.Atom.Args[0].Op == "ext" && isLeashGet(f.Atom.Args[0].Args[0], asked)
				}
				c.check(told, "unleashed", fnName(c, fn), p.Pos, p, "nothing looks whether the peer just has no leash")
			}
			if n == "HasLeash" && e.errOutcome(p) != errYes {
				has, known := p.ret(0).boolVal()
				switch state {
				case "found":
					c.check(known && has, "unleashed", fnName(c, fn), p.Pos, p, "a peer with a leash is reported to have none")
				case "absent":
					c.check(known && !has, "unleashed", fnName(c, fn), p.Pos, p, "a peer without a leash is reported to have one")
				}
			}
		}
	}
	c.atLeast("unleashed", 4, "questions about peers without a leash")
}

func isLeashGet(g *Term, addr func(*Term) bool) bool {
	if g == nil || g.Op != "get" {
		return false
	}
	ad, is := leashOp(dbOp{key: g.Args[1]})
	return is && ad != nil && addr(ad)
}

func failedLookup(p *Path, addr func(*Term) bool) bool {
	for _, f := range p.Facts {
		if a := f.Atom; a.Op == "eq" && !f.Val && a.Args[1].Op == "nil" && a.Args[0].Op == "ext" && a.Args[0].Sym == "1" && isLeashGet(a.Args[0].Args[0], addr) {
			return true
		}
	}
	return false
}

// carriesAny: the error returned has the failed lookup of the leash in it.
func carriesAny(p *Path, addr func(*Term) bool) bool {
	r := p.errResult()
	return r != nil && r.any(func(t *Term) bool { return t.Op == "ext" && t.Sym == "1" && isLeashGet(t.Args[0], addr) })
}

// genesisParam reports whether an address refers to the given genesis block or a local copy of it.
func genesisParam(a *Term, param string, st *State) bool {
	r := rootOf(a)
	if r.is("param", param) {
		return true
	}
	if r.Op == "alloc" {
		return strings.HasPrefix(r.Sym, param+"#") || strings.HasPrefix(r.Sym, "genesis#")
	}
	return false
}

func isGenesisLike(t *Term) bool { return isGenesisField(t) }

// moveLeashCallers: outside the store, a leash is only moved onto a block that was found to be stored.
func (c *Ctx) moveLeashCallers() {
	for _, r := range c.runtimeRoots() {
		paths, e := c.runtimePaths(r)
		walk(paths, func(s site) {
			if !isCallSuffix(s.ev, ".MoveLeash") || len(s.ev.Args) < 3 {
				return
			}
			id := s.ev.Args[1]
			okv := false
			for _, f := range s.facts() {
				if f.Val && f.Atom.Op == "ext" && f.Atom.Sym == "0" && strings.HasSuffix(callName(f.Atom.Args[0]), ".HasBlock") && f.Atom.Args[0].Args[1] == id {
					okv = true
				}
			}
			_ = e
			c.check(okv, "move-to-stored-block", c.at(s.ev), s.ev.Pos, s.path, "a leash is moved to %v without checking that this block is stored", id)
		})
	}
	c.atLeast("move-to-stored-block", 1, "callers of MoveLeash")
}

// ---- C02..C05 ----

// record is what one batch stores about a new block.
type record struct {
	w     dbWrite
	id    *Term
	idOp  dbOp
	num   *Term
	block *Term
	link  *Term
	cnt   *Term
}

func marshalled(v *Term) *Term {
	if v != nil && v.Op == "ext" && v.Sym == "0" && v.Args[0].is("call", "cbor.Marshal") {
		return unface(v.Args[0].Args[0])
	}
	return nil
}

func be64(v *Term) *Term {
	if v != nil && v.Op == "be64" {
		return v.Args[0]
	}
	return nil
}

func isCounterKey(k *Term, n int64) bool {
	p, rest, ok := keyOf(k)
	if !ok || p != 0 || len(rest) != 1 || rest[0].Op != "byte" {
		return false
	}
	m, ok := rest[0].Args[0].int64()
	return ok && m == n
}

// storesBlocks reports whether the batch has operations on block records.
func storesBlocks(w dbWrite) bool {
	for _, o := range w.ops {
		if p, _, ok := keyOf(o.key); !ok || p != 3 {
			return true
		}
	}
	return false
}

func readRecord(w dbWrite) record {
	r := record{w: w}
	for _, o := range w.ops {
		if o.del {
			continue
		}
		if id := idKey(o.key, 1); id != nil {
			r.id, r.idOp, r.num = id, o, be64(o.val)
		}
		if isCounterKey(o.key, 0) {
			r.cnt = be64(o.val)
		}
	}
	for _, o := range w.ops {
		if n := numKey(o.key, 1); n != nil && n == r.num && !o.del {
			r.block = marshalled(o.val)
		}
		if n := numKey(o.key, 2); n != nil && n == r.num && !o.del {
			r.link = marshalled(o.val)
		}
	}
	return r
}

// nextCounter: value is the counter read from the store plus one (or one when the counter is absent).
func nextCounter(e *Engine, facts []Fact, v *Term, ctr int64) bool {
	if v == nil {
		return false
	}
	if n, ok := v.int64(); ok && n == 1 {
		for _, f := range facts {
			if f.Atom.Op == "errorsis" && f.Val && isGlobalLoad(f.Atom.Args[1], "leveldb.ErrNotFound") && f.Atom.Args[0].Op == "ext" {
				if g := f.Atom.Args[0].Args[0]; g.Op == "get" && isCounterKey(g.Args[1], ctr) {
					return true
				}
			}
			if f.Atom.Op == "eq" && f.Val {
				if z, ok := f.Atom.Args[1].int64(); ok && z == 0 && isCounterKey(storedNum(f.Atom.Args[0]), ctr) {
					return true
				}
			}
		}
		return false
	}
	if v.Op == "bin" && v.Sym == "+" {
		if n, ok := v.Args[1].int64(); ok && n == 1 {
			return isCounterKey(storedNum(v.Args[0]), ctr)
		}
	}
	return false
}

func runC02(c *Ctx) {
	for _, fn := range c.linkageRoots() {
		paths, e := c.paths(fn)
		name := fnName(c, fn)
		for _, p := range paths {
			if p.Kind != "return" {
				continue
			}
			ws, pend := dbWrites(p)
			out := e.errOutcome(p)
			nb := 0
			for _, w := range ws {
				c.check(w.batch != nil, "batched", name, w.ev.Pos, p, "the store is modified by a single-key write instead of a batch")
				c.check(!w.loop, "one-write", name, w.ev.Pos, p, "the store is written repeatedly inside one operation")
				if !storesBlocks(w) {
					continue
				}
				nb++
				if w.batch == nil {
					continue
				}
				r := readRecord(w)
				facts := p.Facts[:min(w.ev.NFacts, len(p.Facts))]
				if !c.check(r.id != nil && r.num != nil, "record-id", name, w.ev.Pos, p, "the batch that stores a block does not map its ID to a number") {
					continue
				}
				c.check(r.block != nil, "record-block", name, w.ev.Pos, p, "the batch does not hold the block under the number given to its ID")
				c.check(r.link != nil, "record-link", name, w.ev.Pos, p, "the batch does not hold the chain link under the number given to the block ID")
				c.check(r.cnt != nil && r.cnt == r.num, "record-counter", name, w.ev.Pos, p, "the batch does not advance the blocks counter to the number of the stored block")
				c.check(nextCounter(e, facts, r.num, 0), "record-number", name, w.ev.Pos, p, "the block number %v is not the next value of the blocks counter", r.num)
				hb, bh := false, false
				for _, o := range w.ops {
					if n := numKey(o.key, 5); n != nil && n == r.num && !o.del {
						bh = true
					}
					if numKey(o.key, 4) != nil && !o.del && be64(o.val) == r.num {
						hb = true
					}
					c.check(!o.loop, "record-once", name, o.ev.Pos, p, "records are added to the batch repeatedly")
				}
				c.check(hb && bh, "record-head", name, w.ev.Pos, p, "the batch does not make the stored block a head")
				if out != errYes {
					c.check(e.okIfSuccess(p, w), "write-outcome", name, w.ev.Pos, p, "success is reported although the write may have failed")
				}
				// block and link carry the same id and height
				if r.block != nil && r.link != nil {
					bi, li := tagged(r.block, 3), tagged(r.link, 1)
					c.check(bi != nil && li != nil && bi == li && idOfBytes(bi) == r.id, "record-same-id", name, w.ev.Pos, p, "block, link and index record of one batch carry different block IDs")
					c.check(tagged(r.block, 0) != nil && tagged(r.block, 0) == tagged(r.link, 0), "record-same-height", name, w.ev.Pos, p, "block and link of one batch carry different heights")
				}
			}
			c.check(nb <= 1, "one-write", name, p.Pos, p, "block records are written in %d separate writes, a crash between them leaves a partial block", nb)
			if out == errNo {
				for _, ops := range pend {
					for _, o := range ops {
						c.check(false, "batch-written", name, o.ev.Pos, p, "success is reported although a prepared record was never written")
					}
				}
			}
		}
	}
	// the whole package writes through these roots only
	c.onlyReachable("chains", c.linkageRoots(), []string{"(*leveldb.DB).Write", "(*leveldb.DB).Put", "(*leveldb.DB).Delete", "(*leveldb.DB).OpenTransaction"})
	c.atLeast("record-block", 3, "block writes (genesis, block, micro-block)")
}

// onlyReachable checks that every function of the package which calls one of the named functions was analysed from
// the given roots.
func (c *Ctx) onlyReachable(pkg string, roots []*ssa.Function, calls []string) {
	seen := map[*ssa.Function]bool{}
	for _, e := range c.engines {
		for f := range e.seen {
			seen[f] = true
		}
	}
	for _, fn := range c.p.pkgFuncs(pkg) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				nm := c.calleeName(ci.Common())
				for _, w := range calls {
					if nm == w && !seen[fn] && c.p.usedInProgram(fn) {
						c.bad("reach", fnName(c, fn)+" "+w, in.Pos(), nil, "%s calls %s outside the analysed entry points", fnName(c, fn), w)
					}
				}
			}
		}
		c.ok("reach")
	}
}

func (c *Ctx) calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return c.p.typesFuncName(cc.Method)
	}
	if f := cc.StaticCallee(); f != nil {
		return c.p.funcName(f)
	}
	return ""
}

func runC03(c *Ctx) {
	for _, pu := range c.putters() {
		if pu.move {
			continue
		}
		paths, e := c.paths(pu.fn)
		name := fnName(c, pu.fn)
		for _, p := range paths {
			if p.Kind != "return" {
				continue
			}
			ws, _ := dbWrites(p)
			for _, w := range ws {
				if !storesBlocks(w) {
					continue
				}
				facts := p.Facts[:min(w.ev.NFacts, len(p.Facts))]
				c.check(blockKnown(e, facts, pu.id, false), "new-only", name, w.ev.Pos, p, "a block is stored without having been found absent, a known block could be stored twice")
				c.check(blockKnown(e, facts, pu.ref, true), "linked-only", name, w.ev.Pos, p, "a block is stored although the block it refers to was not found in the store")
				r := readRecord(w)
				c.check(r.id != nil && pu.id(r.id), "right-id", name, w.ev.Pos, p, "the block is indexed under %v", r.id)
			}
			res := p.errResult()
			absent := blockKnown(e, p.Facts, pu.ref, false)
			if absent {
				ok := e.errorsIs(unface(res), e.loadGlobal(pu.refErr), &State{mem: map[*Term]*Term{}, facts: p.Facts})
				b, known := ok.boolVal()
				c.check(known && b, "orphan-error", name, p.Pos, p, "an orphan is answered with %v instead of %s", res, pu.refErr)
				c.check(len(ws) == 0, "orphan-no-write", name, p.Pos, p, "an orphan modifies the store")
			}
			if isGlobalLoadIn(res, pu.refErr) {
				c.check(absent, "orphan-error-only", name, p.Pos, p, "%s is returned although the referenced block was not found absent", pu.refErr)
			}
			if e.errOutcome(p) != errYes {
				known := blockKnown(e, p.Facts, pu.id, true)
				wrote := false
				for _, w := range ws {
					if storesBlocks(w) && e.okIfSuccess(p, w) {
						wrote = true
					}
				}
				c.check(known || wrote, "accepted-is-stored", name, p.Pos, p, "the operation reports success for a block that is neither known nor stored by it")
				c.check(!(known && wrote), "known-not-rewritten", name, p.Pos, p, "a known block is stored again")
			}
		}
	}
	// initialisation stores the genesis block only into an empty store and accepts only the same genesis afterwards
	if fn := c.root("chains", "", "NewLinkage"); fn != nil {
		paths, e := c.paths(fn)
		name := fnName(c, fn)
		gp := fn.Params[len(fn.Params)-1].Name()
		for _, p := range paths {
			if p.Kind != "return" {
				continue
			}
			ws, _ := dbWrites(p)
			wrote := false
			for _, w := range ws {
				if !storesBlocks(w) {
					continue
				}
				wrote = true
				r := readRecord(w)
				n, isOne := int64(0), false
				if r.num != nil {
					n, isOne = r.num.int64()
				}
				c.check(isOne && n == 1 && nextCounter(e, p.Facts, r.num, 0), "init-empty-only", name, w.ev.Pos, p, "the genesis block is written into a store that may already hold blocks")
				c.check(r.id != nil && callName(r.id) == "(*proto.BlockHeader).BlockID" && genesisParam(r.id.Args[0], gp, p.St), "init-genesis", name, w.ev.Pos, p, "the initial block %v is not the configured genesis block", r.id)
			}
			if e.errOutcome(p) == errNo && !wrote {
				same := blockKnown(e, p.Facts, func(t *Term) bool {
					return callName(t) == "(*proto.BlockHeader).BlockID" && genesisParam(t.Args[0], gp, p.St)
				}, true)
				c.check(same, "same-genesis", name, p.Pos, p, "an existing store is opened without checking that it holds the configured genesis block")
			}
		}
	}
	c.atLeast("new-only", 2, "block writes")
	c.atLeast("orphan-error", 2, "orphan paths")
	c.atLeast("init-empty-only", 1, "initialisation writes")
	c.atLeast("same-genesis", 1, "paths opening an existing store")
}

func (e *Engine) loadGlobal(name string) *Term {
	return e.tt.mk("load", "", types.Universe.Lookup("error").Type(), e.tt.mk("global", name, nil))
}

func isGlobalLoadIn(t *Term, name string) bool {
	return t != nil && t.any(func(x *Term) bool { return isGlobalLoad(x, name) })
}

// scoreOf recognises 2^64 / baseTarget (zero for a zero base target) of the given base target.
func isBlockScore(e *Engine, facts []Fact, v *Term, bt func(*Term) bool) bool {
	v = unconv(v)
	if n, ok := v.int64(); ok && n == 0 {
		for _, f := range facts {
			if f.Val && f.Atom.Op == "eq" && bt(unconv(f.Atom.Args[0])) {
				if z, ok := f.Atom.Args[1].int64(); ok && z == 0 {
					return true
				}
			}
		}
		return false
	}
	return v.is("bigop", "Div") && bigConst(v.Args[0], "18446744073709551616") && bt(unconv(v.Args[1]))
}

func runC04(c *Ctx) {
	for _, pu := range c.putters() {
		if pu.move {
			continue
		}
		paths, e := c.paths(pu.fn)
		name := fnName(c, pu.fn)
		for _, p := range paths {
			if p.Kind != "return" {
				continue
			}
			ws, _ := dbWrites(p)
			for _, w := range ws {
				if !storesBlocks(w) || w.batch == nil {
					continue
				}
				r := readRecord(w)
				if r.block == nil || r.link == nil {
					c.check(false, "record-found", name, w.ev.Pos, p, "the stored block record cannot be recognised")
					continue
				}
				facts := p.Facts[:min(w.ev.NFacts, len(p.Facts))]
				// refField: field with that tag of the record of the referenced block
				refField := func(t *Term, tag int) bool {
					rec, tg, ok := fieldTag(strip(t))
					if !ok || tg != tag {
						return false
					}
					n := decodedAt(rec, 1)
					id := numOfID(n)
					return id != nil && pu.ref(id)
				}
				h, ts, sc, parent, gen := tagged(r.block, 0), tagged(r.block, 1), tagged(r.block, 2), tagged(r.block, 4), tagged(r.block, 5)
				pos := w.ev.Pos
				if pu.micro {
					c.check(refField(h, 0), "height", name, pos, p, "a micro-block is stored at height %v instead of the height of the block it extends", h)
					c.check(refField(ts, 1), "timestamp", name, pos, p, "a micro-block is stored with timestamp %v instead of that of the block it extends", ts)
					c.check(refField(sc, 2), "score", name, pos, p, "a micro-block is stored with score %v instead of that of the block it extends", sc)
					c.check(refField(parent, 4), "parent", name, pos, p, "a micro-block is stored with parent %v instead of the parent of the block it extends", parent)
					c.check(refField(gen, 5), "generator", name, pos, p, "a micro-block is stored with generator %v instead of that of the block it extends", gen)
				} else {
					bp := pu.fn.Params[1].Name()
					okH := h != nil && h.Op == "bin" && h.Sym == "+" && refField(h.Args[0], 0)
					if okH {
						n, isN := h.Args[1].int64()
						okH = isN && n == 1
					}
					c.check(okH, "height", name, pos, p, "the height of a stored block is %v, not the height of its parent plus one", h)
					c.check(isParamLoad(ts, bp, "Timestamp"), "timestamp", name, pos, p, "the stored timestamp %v is not the timestamp of the block", ts)
					bt := func(t *Term) bool { return isParamLoad(t, bp, "BaseTarget") }
					okS := false
					if sc != nil {
						parentNil := false
						for _, f := range facts {
							if f.Val && f.Atom.Op == "eq" && f.Atom.Args[1].Op == "nil" && refField(f.Atom.Args[0], 2) {
								parentNil = true
							}
						}
						switch {
						case sc.is("bigop", "Add"):
							okS = refField(sc.Args[0], 2) && isBlockScore(e, facts, sc.Args[1], bt) || refField(sc.Args[1], 2) && isBlockScore(e, facts, sc.Args[0], bt)
						case refField(sc, 2):
							okS = isBlockScore(e, facts, e.tt.intc(0), bt) // zero base target adds nothing
						case parentNil:
							okS = isBlockScore(e, facts, sc, bt)
						}
					}
					c.check(okS, "score", name, pos, p, "the stored score is %v, not the parent's score plus 2^64 divided by the base target", sc)
					id := idOfBytes(parent)
					c.check(id != nil && pu.ref(id), "parent", name, pos, p, "the stored parent %v is not the parent named by the block", parent)
					okG := gen != nil && strings.HasSuffix(callName(gen), ".Bytes") && gen.Args[0].any(func(t *Term) bool {
						return callName(t) == "proto.NewAddressFromPublicKey" && len(t.Args) == 2 && isParamLoad(t.Args[1], bp, "GeneratorPublicKey") && isSchemeField(t.Args[0])
					})
					c.check(okG, "generator", name, pos, p, "the stored generator %v is not the address of the block's generator key in the configured network", gen)
				}
				// the link attaches to the chain parent
				first := func(n *Term) bool {
					id := numOfID(n)
					if id == nil {
						return false
					}
					if !pu.micro {
						return pu.ref(id)
					}
					return id.Op == "ext" && id.Sym == "0" && callName(id.Args[0]) == "proto.NewBlockIDFromBytes" && refField(id.Args[0].Args[0], 4)
				}
				c.linkParents(e, p, r, first, h, name)
			}
		}
	}
	if fn := c.root("chains", "", "NewLinkage"); fn != nil {
		paths, e := c.paths(fn)
		gp := fn.Params[len(fn.Params)-1].Name()
		name := fnName(c, fn)
		for _, p := range paths {
			ws, _ := dbWrites(p)
			for _, w := range ws {
				if !storesBlocks(w) || w.batch == nil {
					continue
				}
				r := readRecord(w)
				if r.block == nil || r.link == nil {
					c.check(false, "record-found", name, w.ev.Pos, p, "the stored genesis record cannot be recognised")
					continue
				}
				h, ts, sc, gen := tagged(r.block, 0), tagged(r.block, 1), tagged(r.block, 2), tagged(r.block, 5)
				n, ok := h.int64()
				c.check(ok && n == 1, "genesis-height", name, w.ev.Pos, p, "the genesis block is stored at height %v", h)
				c.check(genField(ts, gp, "Timestamp"), "genesis-timestamp", name, w.ev.Pos, p, "the genesis timestamp is %v", ts)
				c.check(isBlockScore(e, p.Facts, sc, func(t *Term) bool { return genField(t, gp, "BaseTarget") }), "genesis-score", name, w.ev.Pos, p, "the genesis score is %v", sc)
				okG := gen != nil && gen.any(func(t *Term) bool {
					return callName(t) == "proto.NewAddressFromPublicKey" && genField(t.Args[1], gp, "GeneratorPublicKey")
				}) && !gen.any(func(t *Term) bool {
					n := callName(t)
					return strings.HasPrefix(n, "(proto.WavesAddress).") && n != "(proto.WavesAddress).Bytes"
				})
				c.check(okG, "genesis-generator", name, w.ev.Pos, p, "the genesis generator is %v", gen)
				par := tagged(r.link, 2)
				c.check(par != nil && (par.Op == "nil" || emptySlice(par)), "genesis-link", name, w.ev.Pos, p, "the genesis block is linked to parents %v", par)
			}
		}
	}
	c.blockReads()
	c.atLeast("height", 2, "stored blocks")
	c.atLeast("genesis-height", 1, "stored genesis blocks")
	c.atLeast("link-parents", 2, "stored links")
}

func isSchemeField(t *Term) bool {
	t = strip(t)
	return t != nil && t.Op == "load" && t.Args[0].Op == "faddr" && isNamed(typOr(t.Args[0].Args[0]), "chains", "storage") && isByte(typOr(t))
}

func genField(t *Term, param, field string) bool {
	t = strip(t)
	if t == nil {
		return false
	}
	switch t.Op {
	case "load":
		return t.Args[0].Op == "faddr" && t.Args[0].Sym == field && genesisParam(t.Args[0], param, nil)
	case "field":
		b := t
		for b.Op == "field" {
			b = b.Args[0]
		}
		return t.Sym == field && b.is("param", param)
	}
	return false
}

func emptySlice(t *Term) bool {
	switch t.Op {
	case "nil":
		return true
	case "mkslice":
		n, ok := t.Args[0].int64()
		return ok && n == 0
	case "slice":
		lo, ok1 := t.Args[1].int64()
		hi, ok2 := t.Args[2].int64()
		return ok1 && ok2 && lo == hi
	}
	return false
}

// linkParents checks the ancestor references of a stored link: element 0 is the chain parent and element k+1 is
// element k of the link of element k, up to ceil(log2(height)) of them.
func (c *Ctx) linkParents(e *Engine, p *Path, r record, first func(*Term) bool, h *Term, name string) {
	par := tagged(r.link, 2)
	if ev, elems, why := listOf(e, p, par); ev != nil || par.Op == "mkslice" {
		if ev == nil {
			c.check(false, "link-parents", name, r.w.ev.Pos, p, "the ancestor references of a stored link are wrong: %s", why)
			return
		}
		vars := loopVars(e, ev)
		{
			if par.Op == "mkslice" && !isLevels(par.Args[0], h) {
				why = "the number of levels is not ceil(log2(height))"
			}
			var cur *Term // the variable holding the current ancestor
			for _, x := range elems {
				if x == nil {
					why = "an iteration does not add exactly one ancestor"
					break
				}
				if cur != nil && cur != x {
					why = "iterations add different quantities"
					break
				}
				cur = x
			}
			if why == "" && cur == nil {
				why = "no ancestor is added"
			}
			var it *Term
			if why == "" {
				found := false
				for _, q := range vars {
					if q.cur != cur {
						continue
					}
					found = true
					if q.init == nil || !first(q.init) {
						why = "the first ancestor is not the chain parent"
					}
					for bi, nx := range q.next {
						b := ev.Loop.Bodies[bi]
						if nx == q.cur {
							// kept: only when the ancestor has no such reference
							kept := false
							for _, f := range b.own() {
								if f.Atom.Op == "lt" && !f.Val && f.Atom.Args[0].Op == "iter" && parentsLen(f.Atom.Args[1], cur) {
									kept = true
								}
							}
							if !kept {
								why = "the ancestor is not advanced although its link has a further reference"
							}
							continue
						}
						if nx.Op != "index" || nx.Args[1].Op != "iter" || !isParentsOf(nx.Args[0], cur) {
							why = "the next ancestor is not taken from the link of the current one at the current level"
							continue
						}
						it = nx.Args[1]
					}
				}
				if !found {
					why = "the ancestor is not carried from one level to the next"
				}
			}
			if why == "" && it != nil {
				okB := false
				for _, f := range p.Facts[min(ev.NFacts, len(p.Facts)):] {
					if f.Atom.Op == "lt" && !f.Val && f.Atom.Args[0] == it && isLevels(f.Atom.Args[1], h) {
						okB = true
					}
				}
				if !okB {
					why = "the number of levels is not ceil(log2(height))"
				}
			}
			c.check(why == "", "link-parents", name, ev.Pos, p, "the ancestor references of a stored link are wrong: %s", why)
			return
		}
	}
	c.check(false, "link-parents", name, r.w.ev.Pos, p, "the ancestor references %v of a stored link are not collected level by level", par)
}

func parentsLen(t, num *Term) bool {
	return t.Op == "len" && isParentsOf(t.Args[0], num)
}

// isParentsOf recognises the Parents field of the link stored under num.
func isParentsOf(t, num *Term) bool {
	rec, tg, ok := fieldTag(t)
	return ok && tg == 2 && decodedAt(rec, 2) == num
}

func isLevels(t, h *Term) bool {
	t = strip(t)
	if callName(t) == "math.Ceil" {
		l := strip(t.Args[0])
		return callName(l) == "math.Log2" && strip(l.Args[0]) == strip(h)
	}
	if n := callName(t); n == "bits.Len32" || n == "bits.Len" || n == "bits.Len64" {
		x := strip(t.Args[0])
		if x.Op == "bin" && x.Sym == "+" {
			if k, ok := x.Args[1].int64(); ok && k == -1 && strip(x.Args[0]) == strip(h) {
				return true
			}
			return false
		}
		// h is itself parent height + 1
		hh := strip(h)
		if hh.Op == "bin" && hh.Sym == "+" {
			if k, ok := hh.Args[1].int64(); ok && k == 1 {
				return strip(hh.Args[0]) == x
			}
		}
	}
	return false
}

// blockReads: what is reported about a stored block is what was stored.
func (c *Ctx) blockReads() {
	fn := c.root("chains", "Linkage", "Block")
	if fn == nil {
		return
	}
	ip := fn.Params[1].Name()
	paths, e := c.paths(fn)
	name := fnName(c, fn)
	for _, p := range paths {
		if p.Kind != "return" || e.errOutcome(p) == errYes {
			continue
		}
		b := p.ret(0)
		T, isS := b.Typ, false
		var su *types.Struct
		if T != nil {
			su, isS = T.Underlying().(*types.Struct)
		}
		if !isS || b.Op != "struct" {
			c.check(false, "block-read", name, p.Pos, p, "the reported block %v is not built from the stored record", b)
			continue
		}
		fieldV := func(n string) *Term {
			for i := 0; i < su.NumFields(); i++ {
				if su.Field(i).Name() == n {
					return b.Args[i]
				}
			}
			return nil
		}
		rec := func(t *Term, tag int) bool {
			t = strip(t)
			r, tg, ok := fieldTag(t)
			if !ok || tg != tag {
				return false
			}
			id := numOfID(decodedAt(r, 1))
			return id != nil && id.is("param", ip)
		}
		conv := func(t *Term, fn string, tag int) bool {
			return t != nil && t.Op == "ext" && t.Sym == "0" && callName(t.Args[0]) == fn && rec(t.Args[0].Args[0], tag)
		}
		c.check(rec(fieldV("Height"), 0), "block-read", name+" height", p.Pos, p, "the reported height is %v", fieldV("Height"))
		c.check(rec(fieldV("Score"), 2), "block-read", name+" score", p.Pos, p, "the reported score is %v", fieldV("Score"))
		c.check(conv(fieldV("ID"), "proto.NewBlockIDFromBytes", 3), "block-read", name+" id", p.Pos, p, "the reported ID is %v", fieldV("ID"))
		par := fieldV("Parent")
		okP := conv(par, "proto.NewBlockIDFromBytes", 4)
		if !okP && par != nil && (par.Op == "zero" || par.isConst()) {
			for _, f := range p.Facts {
				if f.Val && f.Atom.Op == "eq" && f.Atom.Args[0].Op == "len" && rec(f.Atom.Args[0].Args[0], 4) {
					okP = true
				}
			}
		}
		c.check(okP, "block-read", name+" parent", p.Pos, p, "the reported parent is %v", par)
		c.check(conv(fieldV("Generator"), "proto.NewAddressFromBytes", 5), "block-read", name+" generator", p.Pos, p, "the reported generator is %v", fieldV("Generator"))
		ts := fieldV("Timestamp")
		okT := rec(ts, 1)
		if !okT {
			// clamped to the last representable instant
			if n, isN := ts.int64(); isN && n > 4102444800000 {
				for _, f := range p.Facts {
					if f.Atom.Op == "lt" && (rec(f.Atom.Args[0], 1) && !f.Val || rec(f.Atom.Args[1], 1) && f.Val) {
						okT = true
					}
				}
			}
			if ts.Op == "conv" && ts.Args[0].Op == "minmax" && ts.Args[0].Sym == "min" {
				okT = rec(ts.Args[0].Args[0], 1) || rec(ts.Args[0].Args[1], 1)
			}
		}
		c.check(okT, "block-read", name+" timestamp", p.Pos, p, "the reported timestamp is %v", ts)
	}
	c.atLeast("block-read", 6, "fields of a reported block")
}

// ---- C05 heads ----

func runC05(c *Ctx) {
	for _, pu := range c.putters() {
		if pu.move {
			continue
		}
		paths, e := c.paths(pu.fn)
		name := fnName(c, pu.fn)
		for _, p := range paths {
			if p.Kind != "return" {
				continue
			}
			ws, _ := dbWrites(p)
			for _, w := range ws {
				if !storesBlocks(w) || w.batch == nil {
					continue
				}
				r := readRecord(w)
				facts := p.Facts[:min(w.ev.NFacts, len(p.Facts))]
				// which block's head is moved?
				var g *Term
				state := ""
				for _, f := range facts {
					a := f.Atom
					var x *Term
					if a.Op == "eq" && a.Args[1].Op == "nil" && a.Args[0].Op == "ext" && a.Args[0].Sym == "1" {
						x = a.Args[0].Args[0]
					} else if a.Op == "errorsis" && a.Args[0].Op == "ext" {
						x = a.Args[0].Args[0]
					}
					if x == nil || x.Op != "get" || numKey(x.Args[1], 5) == nil {
						continue
					}
					id := numOfID(numKey(x.Args[1], 5))
					if id == nil || !pu.ref(id) {
						continue
					}
					g = x
					if a.Op == "eq" && f.Val {
						state = "has"
					} else if a.Op == "errorsis" && f.Val {
						state = "none"
					}
				}
				if !c.check(state != "", "head-looked-up", name, w.ev.Pos, p, "a block is stored without consulting whether the block it extends is a head") {
					continue
				}
				parentNum := numKey(g.Args[1], 5)
				var head *Term
				if state == "has" {
					head = e.tt.mk("unbe64", "", types.Typ[types.Uint64], e.tt.mk("ext", "0", nil, g))
				}
				var delParent, hb, bh, cnt int
				other := 0
				var hNum *Term
				for _, o := range w.ops {
					if n := numKey(o.key, 4); n != nil {
						if !o.del && be64(o.val) == r.num {
							hb++
							hNum = n
						} else {
							other++
						}
						continue
					}
					if n := numKey(o.key, 5); n != nil {
						switch {
						case o.del && n == parentNum:
							delParent++
						case !o.del && n == r.num:
							bh++
						default:
							other++
						}
						continue
					}
					if isCounterKey(o.key, 1) {
						cnt++
					}
				}
				c.check(other == 0, "head-no-other", name, w.ev.Pos, p, "storing a block changes the heads of unrelated blocks")
				c.check(hb == 1 && bh == 1, "head-points", name, w.ev.Pos, p, "the stored block does not become exactly one head")
				for _, o := range w.ops {
					if n := numKey(o.key, 5); n != nil && !o.del && n == r.num {
						c.check(hNum != nil && be64(o.val) == hNum, "head-mirror", name, o.ev.Pos, p, "the two head indexes disagree: head %v against %v", hNum, o.val)
					}
				}
				if state == "has" {
					_ = head
					c.check(hNum != nil && hNum.Op == "unbe64" && hNum.Args[0].is("ext", "0") && hNum.Args[0].Args[0] == g, "head-moved", name, w.ev.Pos, p, "extending a head does not move that head: head number %v", hNum)
					c.check(delParent >= 1, "head-left", name, w.ev.Pos, p, "the extended block stays marked as a head")
					c.check(cnt == 0, "head-count", name, w.ev.Pos, p, "extending a head changes the number of heads")
				} else {
					c.check(delParent == 0, "head-fork", name, w.ev.Pos, p, "a fork removes a head that is not its parent's")
					c.check(nextCounter(e, facts, hNum, 1), "head-new", name, w.ev.Pos, p, "a new fork gets head number %v, which is not the next value of the heads counter", hNum)
					okC := false
					for _, o := range w.ops {
						if isCounterKey(o.key, 1) && !o.del && be64(o.val) == hNum {
							okC = true
						}
					}
					c.check(okC, "head-counter", name, w.ev.Pos, p, "a new head number is used without advancing the heads counter")
				}
			}
		}
	}
	// genesis is head 1, exactly once
	if fn := c.root("chains", "", "NewLinkage"); fn != nil {
		paths, _ := c.paths(fn)
		for _, p := range paths {
			ws, _ := dbWrites(p)
			for _, w := range ws {
				if !storesBlocks(w) {
					continue
				}
				r := readRecord(w)
				okH, okB, okC := false, false, false
				one := func(t *Term) bool { n, ok := t.int64(); return ok && n == 1 }
				for _, o := range w.ops {
					if n := numKey(o.key, 4); n != nil && one(n) && be64(o.val) == r.num {
						okH = true
					}
					if n := numKey(o.key, 5); n != nil && n == r.num && be64(o.val) != nil && one(be64(o.val)) {
						okB = true
					}
					if isCounterKey(o.key, 1) && be64(o.val) != nil && one(be64(o.val)) {
						okC = true
					}
				}
				c.check(okH && okB && okC, "head-genesis", fnName(c, fn), w.ev.Pos, p, "the genesis block is not stored as the first head")
			}
		}
	}
	// reported heads are the stored ones
	c.headReads()
	c.atLeast("head-moved", 2, "moved heads")
	c.atLeast("head-new", 2, "new heads")
	c.atLeast("head-genesis", 1, "genesis heads")
}

func (c *Ctx) headReads() {
	fn := c.root("chains", "Linkage", "Heads")
	if fn == nil {
		return
	}
	paths, e := c.paths(fn)
	for _, p := range paths {
		for _, ev := range p.Events {
			if isCall(ev, "(*leveldb.Snapshot).NewIterator") {
				lo, hi, ok := rangeOf(e, p, ev)
				okR := false
				if ok {
					a, b := numKey(lo, 4), numKey(hi, 4)
					if a != nil && b != nil {
						x, ok1 := a.int64()
						okR = ok1 && x <= 1 && isMax64(b)
					}
				}
				c.check(okR, "heads-range", fnName(c, fn), ev.Pos, p, "the listing of heads does not cover exactly the head records: %v .. %v", lo, hi)
			}
		}
	}
	c.atLeast("heads-range", 1, "iterations over the heads")
}

func isMax64(t *Term) bool {
	return t.isConst() && t.Cval.ExactString() == "18446744073709551615"
}

// rangeOf resolves the bounds of an iterator range built on the path.
func rangeOf(e *Engine, p *Path, ev *Event) (lo, hi *Term, ok bool) {
	r := unface(ev.Args[1])
	if r == nil {
		return nil, nil, false
	}
	if r.Op == "struct" && len(r.Args) == 2 {
		return r.Args[0], r.Args[1], true
	}
	for k, v := range p.St.mem {
		if k.Op == "faddr" && k.Args[0] == r {
			switch k.Sym {
			case "Start":
				lo = e.bytesOf(v, p.St)
			case "Limit":
				hi = e.bytesOf(v, p.St)
			}
		}
	}
	if lo == nil && hi == nil && callName(r) == "util.BytesPrefix" {
		return r.Args[0], nil, false
	}
	return lo, hi, lo != nil && hi != nil
}

var _ = token.NoPos
