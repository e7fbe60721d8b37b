package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C18: messages ----

// The messages that carry what the detector works with, and the identifiers they arrive under.
var handledMessages = []struct{ typ, id string }{
	{"GetPeersMessage", "ContentIDGetPeers"},
	{"PeersMessage", "ContentIDPeers"},
	{"SignaturesMessage", "ContentIDSignatures"},
	{"BlockMessage", "ContentIDBlock"},
	{"ScoreMessage", "ContentIDScore"},
	{"MicroBlockInvMessage", "ContentIDInvMicroblock"},
	{"PBBlockMessage", "ContentIDPBBlock"},
	{"BlockIdsMessage", "ContentIDBlockIDs"},
}

func runC18(c *Ctx) {
	c.admission()
	c.dispatch()
	c.wiring()
}

// protoConst gives the value of a constant of the protocol library.
func (c *Ctx) protoConst(name string) (int64, bool) {
	for _, pk := range c.p.prog.AllPackages() {
		if !strings.HasSuffix(pk.Pkg.Path(), "gowaves/pkg/proto") {
			continue
		}
		if k, ok := pk.Pkg.Scope().Lookup(name).(*types.Const); ok {
			return constant.Int64Val(constant.ToInt(k.Val()))
		}
	}
	c.bad("anchor", "proto."+name, 0, nil, "the protocol library does not define %s", name)
	return 0, false
}

// constMaps are the maps that package main fills with constants, by the field or global variable they are kept in.
// A map that is changed elsewhere maps to nil.
func (c *Ctx) constMaps() map[string]map[int64]int64 {
	r := map[string]map[int64]int64{}
	collect := func(paths []*Path) {
		for _, p := range paths {
			if p.St == nil {
				continue
			}
			for a, v := range p.St.mem {
				if v.Op != "mkmap" {
					continue
				}
				k := mapPlace(a)
				if k == "" {
					continue
				}
				m := map[int64]int64{}
				for _, ev := range p.Events {
					if ev.Kind == "mapset" && ev.Args[0] == v {
						i, ok1 := ev.Args[1].int64()
						b, ok2 := ev.Args[2].boolVal()
						if !ok1 || !ok2 {
							m = nil
							break
						}
						m[i] = boolNum(b)
					}
				}
				old, ok := r[k]
				if ok && (old == nil || m == nil || !sameInts(old, m)) {
					m = nil
				}
				r[k] = m
			}
		}
	}
	for _, rt := range c.runtimeRoots("main") {
		ps, _ := c.runtimePaths(rt)
		collect(ps)
		walk(ps, func(s site) {
			if s.ev.Kind == "mapset" || s.ev.Kind == "mapdel" {
				if k := mapPlace(loadAddr(s.ev.Args[0])); k != "" {
					r[k] = nil
				}
			}
		})
	}
	for _, fn := range c.p.pkgFuncs("main") {
		if fn.Name() == "init" && fn.Parent() == nil {
			ps, _ := c.paths(fn)
			collect(ps)
		}
	}
	return r
}

func sameInts(a, b map[int64]int64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func loadAddr(t *Term) *Term {
	if t != nil && t.Op == "load" {
		return t.Args[0]
	}
	return nil
}

// mapPlace names the field or global variable at an address.
func mapPlace(a *Term) string {
	switch {
	case a == nil:
	case a.Op == "faddr":
		return "field " + a.Sym
	case a.Op == "global":
		return "global " + a.Sym
	}
	return ""
}

// admission: a message the detector works with is never thrown away before it is read.
func (c *Ctx) admission() {
	maps := c.constMaps()
	n := 0
	done := map[*ssa.Function]bool{}
	for _, rt := range c.runtimeRoots("main") {
		paths, e := c.runtimePaths(rt)
		name := fnName(c, rt.fn)
		walk(paths, func(s site) {
			ev := s.ev
			var skip *Term
			switch {
			case isCall(ev, "outgoing.EstablishConnection"), isCall(ev, "incoming.RunIncomingPeer"):
				skip = structField(ev.Vals[1], "Skip")
			default:
				return
			}
			n++
			to := structField(ev.Vals[1], "Parent")
			good := to != nil && to.Op != "zero" && !to.any(func(t *Term) bool { return callName(t) == "peer.NewParent" })
			if good && to.Op == "struct" {
				for _, f := range []string{"MessageCh", "InfoCh"} {
					good = good && endsWithField(structField(to, f), f)
				}
			}
			c.check(good, "delivery", name, ev.Pos, s.path, "the connection delivers its messages to %v", to)
			fn, _ := e.resolve(skip)
			if fn != nil {
				fn = c.p.unwrap(fn)
			}
			if !c.check(fn != nil && fn.Blocks != nil, "admission", name, ev.Pos, s.path, "the messages of the connection are filtered by %v", skip) {
				return
			}
			if done[fn] {
				return
			}
			done[fn] = true
			ps, fe := c.paths(fn)
			for _, hm := range handledMessages {
				id, ok := c.protoConst(hm.id)
				if !ok {
					continue
				}
				v := func(t *Term) (int64, bool) {
					if endsWithField(t, "ContentID") {
						return id, true
					}
					if t.Op != "lookup" && t.Op != "has" || len(t.Args) < 2 {
						return 0, false
					}
					m, ok := maps[mapPlace(loadAddr(t.Args[0]))]
					if !ok || m == nil || !endsWithField(strip(t.Args[1]), "ContentID") {
						return 0, false
					}
					w, in := m[id]
					if t.Op == "has" {
						return boolNum(in), true
					}
					return w, true
				}
				for _, p := range ps {
					if p.Kind == "exit" || !fe.feasible(p.Facts, v) {
						continue
					}
					b, known := false, false
					if p.Kind == "return" && len(p.Results) == 1 {
						b, known = fe.evalBool(p.Results[0], v)
					}
					c.check(known && !b, "admission", fnName(c, fn)+" "+hm.typ, p.Pos, p, "messages of the type %s can be skipped", hm.typ)
				}
			}
		})
	}
	c.check(n >= 2, "admission", "main", 0, nil, "connections are not made")
}

// message describes the handling of one received message on a path.
type message struct {
	c   *Ctx
	e   *Engine
	p   *Path
	m   *Term // the message
	typ string
}

// handlingOf gives the message whose type the path found out.
func (c *Ctx) handlingOf(e *Engine, p *Path) *message {
	for _, hm := range handledMessages {
		if m := messageIs(p.own(), "proto."+hm.typ); m != nil {
			return &message{c, e, p, m, hm.typ}
		}
	}
	return nil
}

// sender recognises the address of the peer that sent the message.
func (h *message) sender(t *Term) bool {
	b, _ := addrBase(t)
	return callName(b) == "(peer.Peer).RemoteAddr" && sameMessage(b.Args[0], h.m)
}

// malformed: the address of the sender or the payload could not be parsed.
func (h *message) malformed() bool {
	for _, f := range h.p.own() {
		a := f.Atom
		if a.Op != "eq" || a.Args[1].Op != "nil" || f.Val {
			continue
		}
		x := a.Args[0]
		if x.Op == "ext" {
			x = x.Args[0]
		}
		switch n := callName(x); {
		case n == "netip.ParseAddrPort":
			if h.sender(x.Args[0]) {
				return true
			}
		case strings.HasSuffix(n, ".UnmarshalBinary"), strings.HasSuffix(n, ".UnmarshalFromProtobuf"):
			return true
		}
	}
	return false
}

// stopping: the detector is being shut down.
func (h *message) stopping() bool {
	for _, ev := range h.p.Events {
		if ev.Kind == "select" && tookDone(ev) && len(ev.Args) > 1 { // Anything else is done instead of waiting for the end.
			return true
		}
	}
	for _, f := range h.p.own() {
		if a := f.Atom; a.Op == "eq" && !f.Val && callName(a.Args[0]) == "(context.Context).Err" && a.Args[1].Op == "nil" {
			return true
		}
	}
	return false
}

func isDone(ch *Term) bool { return callName(ch) == "(context.Context).Done" }

// isEmpty: the list of the message is known to be empty.
func (h *message) isEmpty(field string) bool {
	list := func(t *Term) bool { return t.Op == "len" && fieldOfMessage(t.Args[0], h.m, field) }
	for _, f := range h.p.own() {
		a := f.Atom
		switch {
		case a.Op == "eq" && f.Val && list(a.Args[0]) && isNum(a.Args[1], 0),
			a.Op == "lt" && !f.Val && list(a.Args[1]) && isNum(a.Args[0], 0),
			a.Op == "lt" && f.Val && list(a.Args[0]) && isNum(a.Args[1], 1):
			return true
		}
	}
	return false
}

func isNum(t *Term, n int64) bool {
	k, ok := t.int64()
	return ok && k == n
}

func (c *Ctx) dispatch() {
	seen := map[string]int{}
	for _, rt := range c.runtimeRoots("main") {
		paths, e := c.runtimePaths(rt)
		name := fnName(c, rt.fn)
		for _, p := range paths {
			ch, val, ev := receivedFrom(p)
			if ch == nil || !isMessageChan(ch) || p.Kind == "exit" {
				continue
			}
			h := &message{c: c, e: e, p: p}
			closed := false
			for _, f := range p.own() {
				closed = closed || f.Atom.Op == "recvok" && !f.Val
			}
			c.check(h.stopping() || closed, "reading", name, ev.Pos, p, "no message is read after %v", val)
		}
		levels(paths, func(p *Path) {
			h := c.handlingOf(e, p)
			if h == nil {
				c.undispatched(p, name)
				for _, ev := range p.Events {
					if k := effectOf(ev); k != "" {
						c.bad("effect", name, ev.Pos, p, "%s without a message being handled", k)
					}
				}
				return
			}
			if p.Kind == "exit" {
				return
			}
			why := h.handled()
			seen[h.typ]++
			c.check(why == "", "effect", name+" "+h.typ, p.Pos, p, "a message of the type %s is handled wrongly: %s", h.typ, why)
		})
	}
	c.inOrder()
	for _, hm := range handledMessages {
		c.check(seen[hm.typ] > 0, "dispatch", hm.typ, 0, nil, "messages of the type %s are not handled", hm.typ)
	}
}

// inOrder: messages, and the news about connections, are handled one after the other.
func (c *Ctx) inOrder() {
	fromPeers := func(ch *Term) bool {
		T, ok := types.Unalias(deref(typOr(ch))).Underlying().(*types.Chan)
		return ok && (isNamed(T.Elem(), "peer", "ProtoMessage") || isNamed(T.Elem(), "peer", "InfoMessage"))
	}
	reads := map[string]map[string]bool{} // The channels that the functions read.
	for _, rt := range c.runtimeRoots() {
		paths, _ := c.runtimePaths(rt)
		levels(paths, func(p *Path) {
			if ch, _, _ := receivedFrom(p); ch != nil && fromPeers(ch) {
				n := fnName(c, rt.fn)
				if reads[n] == nil {
					reads[n] = map[string]bool{}
				}
				reads[n][typOr(ch).String()] = true
			}
		})
	}
	for _, rt := range c.runtimeRoots() {
		paths, _ := c.runtimePaths(rt)
		name := fnName(c, rt.fn)
		levels(paths, func(p *Path) {
			_, val, at := receivedFrom(p)
			if at != nil && fromPeers(at.Res.Args[0]) {
				for _, ev := range p.Events {
					if ev.Kind != "go" {
						continue
					}
					uses := false
					for _, b := range append([]*Path{{Events: []*Event{{Args: ev.Args}}}}, ev.Bodies...) {
						for _, x := range b.Events {
							for _, a := range x.Args {
								uses = uses || a != nil && a.contains(val)
							}
						}
					}
					c.check(!uses, "in-order", name, ev.Pos, p, "what was received is handled while the next one is read: the order gets lost")
				}
				c.ok("in-order")
			}
			c.oneReader(name, p, reads, fromPeers)
		})
	}
	c.atLeast("in-order", 2, "handling of what peers send")
}

// undispatched: a message that was received must be looked at.
func (c *Ctx) undispatched(p *Path, name string) {
	ch, val, ev := receivedFrom(p)
	if ch == nil || !isMessageChan(ch) || p.Kind == "exit" {
		return
	}
	for _, hm := range handledMessages {
		not := false
		for _, f := range p.own() {
			if f.Atom.Op == "istype" && !f.Val && strings.HasSuffix(f.Atom.Sym, "proto."+hm.typ) && f.Atom.Args[0].contains(val) {
				not = true
			}
			if f.Atom.Op == "recvok" && !f.Val {
				not = true
			}
		}
		c.check(not, "dispatch", name+" "+hm.typ, ev.Pos, p, "a received message of the type %s can be dropped", hm.typ)
	}
}

func isMessageChan(ch *Term) bool {
	T, ok := types.Unalias(deref(typOr(ch))).Underlying().(*types.Chan)
	return ok && isNamed(T.Elem(), "peer", "ProtoMessage")
}

// effectOf names what an event does with received data.
func effectOf(ev *Event) string {
	switch {
	case isCall(ev, "(*peers.Registry).UpdatePeerScore"):
		return "a score is recorded"
	case isCall(ev, "(*chains.Linkage).PutBlock"):
		return "a block is stored"
	case isCall(ev, "(*chains.Linkage).PutMicroBlock"):
		return "a micro-block is stored"
	case (ev.Kind == "send" || ev.Kind == "select" && ev.Extra != "" && strings.HasPrefix(ev.Extra, "send")) && packageOf(ev) != nil:
		return "data is handed to the loader"
	}
	return ""
}

// packageOf gives the value handed to the loader by a send.
func packageOf(ev *Event) *Term {
	if len(ev.Args) == 0 {
		return nil
	}
	v := ev.Args[len(ev.Args)-1]
	if T := typOr(v); isNamed(T, "loading", "IDsPackage") || isNamed(T, "loading", "BlockPackage") {
		return v
	}
	return nil
}

func (h *message) handled() string {
	// what was done
	var done []*Event
	for _, ev := range h.p.Events {
		if effectOf(ev) != "" {
			done = append(done, ev)
		}
		if ev.Loop != nil {
			why := ""
			walk(ev.Loop.Bodies, func(s site) {
				if k := effectOf(s.ev); k != "" {
					why = k + " repeatedly"
				}
			})
			if why != "" {
				return why
			}
		}
	}
	only := func(n int, k ...string) string {
		for _, ev := range done {
			ok := false
			for _, x := range k {
				ok = ok || effectOf(ev) == x
			}
			if !ok {
				return effectOf(ev)
			}
		}
		if len(done) > n {
			return fmt.Sprintf("%s %d times", effectOf(done[0]), len(done))
		}
		return ""
	}
	for _, ev := range done {
		for _, a := range append(append([]*Term{}, ev.Args...), ev.Vals...) {
			if a != nil && a.any(func(x *Term) bool {
				return x.Op == "ext" && x.Sym == "0" && callName(x.Args[0]) == "netip.ParseAddrPort" &&
					!h.e.knownNil(h.p.Facts[:min(ev.NFacts, len(h.p.Facts))], h.e.tt.mk("ext", "1", types.Universe.Lookup("error").Type(), x.Args[0]))
			}) {
				return effectOf(ev) + " although the sender may not be known"
			}
		}
	}
	switch h.typ {
	case "PeersMessage", "GetPeersMessage":
		return only(0)
	case "ScoreMessage":
		if why := only(1, "a score is recorded"); why != "" {
			return why
		}
		if len(done) == 0 {
			if h.malformed() {
				return ""
			}
			return "the score is not recorded"
		}
		ev := done[0]
		if !h.sender(ev.Args[1]) {
			return fmt.Sprintf("the score is recorded for %v", ev.Args[1])
		}
		s := strip(ev.Vals[2])
		if s.Op != "bigop" || s.Sym != "SetBytes" || !fieldOfMessage(s.Args[len(s.Args)-1], h.m, "Score") {
			return fmt.Sprintf("the score recorded is %v", ev.Args[2])
		}
		return ""
	case "MicroBlockInvMessage":
		if why := only(1, "a micro-block is stored"); why != "" {
			return why
		}
		if len(done) == 0 {
			if h.malformed() {
				return ""
			}
			return "the micro-block is not stored"
		}
		ev := done[0]
		if !h.sender(ev.Args[2]) {
			return fmt.Sprintf("the micro-block is credited to %v", ev.Args[2])
		}
		return h.parsed(ev, ev.Args[1], "Body", "(*proto.MicroBlockInv).UnmarshalBinary")
	case "BlockMessage", "PBBlockMessage":
		return h.block(done, only)
	}
	// lists of IDs
	if why := only(1, "data is handed to the loader"); why != "" {
		return why
	}
	field := "Blocks"
	if h.typ == "SignaturesMessage" {
		field = "Signatures"
	}
	if len(done) == 0 {
		if h.malformed() || h.stopping() || h.isEmpty(field) {
			return ""
		}
		return "the IDs are not handed to the loader"
	}
	pk := packageOf(done[0])
	if !isNamed(typOr(pk), "loading", "IDsPackage") {
		return "something else than IDs is handed to the loader"
	}
	if who := structField(pk, "Peer"); !h.sender(who) {
		return fmt.Sprintf("the IDs are credited to %v", who)
	}
	ids := structField(pk, "IDs")
	if h.typ == "BlockIdsMessage" {
		if !fieldOfMessage(ids, h.m, field) {
			return fmt.Sprintf("the IDs handed over are %v", ids)
		}
		return ""
	}
	var src *Term
	h.p.ownTerms(func(t *Term) {
		if t.Op == "len" && fieldOfMessage(t.Args[0], h.m, field) {
			src = t.Args[0]
		}
	})
	if ids == nil || src == nil {
		return "the IDs handed over are not the received ones"
	}
	return h.c.mapped(h.e, h.p, ids, src, "proto.NewBlockIDFromSignature")
}

// ownTerms visits the terms of the facts of a path.
func (p *Path) ownTerms(f func(t *Term)) {
	for _, x := range p.own() {
		x.Atom.any(func(t *Term) bool { f(t); return false })
	}
}

// mapped: the list holds the result of a function for every element of another list, in order.
func (c *Ctx) mapped(e *Engine, p *Path, list, src *Term, fn string) string {
	d := listDefOf(e, p, list)
	if d == nil {
		return "the list is not built in a known way"
	}
	it := e.tt.mk("iter", d.ev.Loop.ID, types.Typ[types.Int])
	if !exhausted(e, p, d.ev, src) {
		return "elements are left out"
	}
	for _, el := range d.elems {
		if el == nil {
			return "an element is left out"
		}
		if x := strip(el); callName(x) != fn || !isLoopElem(x.Args[0], src, it) {
			return fmt.Sprintf("an entry is %v", el)
		}
	}
	return ""
}

// parsed: the object was made from the payload of the message before the event at.
func (h *message) parsed(at *Event, obj *Term, field string, how string) string {
	var last *Event
	for _, ev := range h.p.Events {
		if ev == at {
			break
		}
		if strings.Contains(ev.Fn, ".Unmarshal") && len(ev.Args) > 0 && ev.Args[0] == obj {
			last = ev
		}
	}
	if last == nil || last.Fn != how {
		return "what is stored was not read from the message"
	}
	if !fieldOfMessage(last.Args[1], h.m, field) {
		return fmt.Sprintf("what is stored was read from %v", last.Args[1])
	}
	if er := errOf(h.e, last); er == nil || !h.e.knownNil(h.p.Facts[:min(at.NFacts, len(h.p.Facts))], er) {
		return "what is stored may have been read only in part"
	}
	return ""
}

func (h *message) block(done []*Event, only func(n int, k ...string) string) string {
	if why := only(2, "a block is stored", "data is handed to the loader"); why != "" {
		return why
	}
	if len(done) == 0 {
		if h.malformed() {
			return ""
		}
		return "the block is not stored"
	}
	put := done[0]
	if !isCall(put, "(*chains.Linkage).PutBlock") {
		return "the loader gets the block before it is stored"
	}
	if !h.sender(put.Args[2]) {
		return fmt.Sprintf("the block is credited to %v", put.Args[2])
	}
	field, how := "BlockBytes", "(*proto.Block).UnmarshalBinary"
	if h.typ == "PBBlockMessage" {
		field, how = "PBBlockBytes", "(*proto.Block).UnmarshalFromProtobuf"
	}
	if why := h.parsed(put, put.Args[1], field, how); why != "" {
		return why
	}
	er := errOf(h.e, put)
	orphan := 0
	for _, f := range h.p.own() {
		a := f.Atom
		if a.Op == "errorsis" && a.Args[0] == er && strings.HasSuffix(a.Args[1].String(), "ErrParentNotFound") {
			orphan = sign(f.Val)
		}
	}
	failed := er != nil && h.e.knownNonNil(h.p.Facts, er) && orphan == -1
	if len(done) == 1 {
		if failed || h.stopping() {
			return ""
		}
		return "the loader does not get the block"
	}
	if failed {
		return "the loader gets a block that could not be stored"
	}
	if er == nil || !h.e.knownNil(h.p.Facts, er) && orphan != 1 {
		return "the loader gets a block that may not have been stored"
	}
	pk := packageOf(done[1])
	if pk == nil || !isNamed(typOr(pk), "loading", "BlockPackage") {
		return "something else than the block is handed to the loader"
	}
	if who := structField(pk, "Peer"); !h.sender(who) {
		return fmt.Sprintf("the loader is told that the block is from %v", who)
	}
	if b := structField(pk, "Block"); b != put.Args[1] {
		return fmt.Sprintf("the loader gets %v instead of the block", b)
	}
	return ""
}

// fieldsOf lists the values that fields of the given type of the objects of a path hold at its end.
func fieldsOf(p *Path, pred func(addr, val *Term) bool) map[*Term]*Term {
	r := map[*Term]*Term{}
	for a, v := range p.St.mem {
		if a.Op == "faddr" && pred(a, v) {
			r[a] = v
		}
	}
	return r
}

// wiring: connections deliver to the channels that are read, and the loader listens to what is sent.
func (c *Ctx) wiring() {
	// the fields by which messages are read, sent on and decoded
	read, sent, scheme := map[string]bool{}, map[string]string{}, map[string]bool{}
	for _, rt := range c.runtimeRoots("main") {
		paths, _ := c.runtimePaths(rt)
		walk(paths, func(s site) {
			ev := s.ev
			switch {
			case (ev.Kind == "select" || ev.Kind == "recv") && ev.Res != nil && ev.Res.Op == "recv" && isMessageChan(ev.Res.Args[0]):
				ch := ev.Res.Args[0]
				ch.any(func(t *Term) bool {
					if t.Op == "faddr" || t.Op == "field" {
						read[t.Sym] = true
					}
					return false
				})
			case (ev.Kind == "send" || ev.Kind == "select") && packageOf(ev) != nil:
				for _, ch := range ev.Args[:len(ev.Args)-1] {
					if a := loadAddr(ch); a != nil && a.Op == "faddr" && !isDone(ch) {
						sent[a.Sym] = typOr(packageOf(ev)).String()
					}
				}
			case isCall(ev, "(*proto.Block).UnmarshalBinary"):
				if a := loadAddr(ev.Args[2]); a != nil && a.Op == "faddr" {
					scheme[a.Sym] = true
				} else {
					c.bad("wiring", fnName(c, rt.fn), ev.Pos, s.path, "blocks are read for the network %v", ev.Args[2])
				}
			}
		})
	}
	taken := map[string]bool{}
	for _, rt := range c.runtimeRoots("main", "loading") {
		paths, _ := c.runtimePaths(rt)
		walk(paths, func(s site) {
			if isChanOp(s.ev) && s.ev.Res != nil && s.ev.Res.Op == "recv" {
				if ch, ok := typOr(s.ev.Res.Args[0]).Underlying().(*types.Chan); ok {
					taken[ch.Elem().String()] = true
				}
			}
		})
	}
	for _, T := range sent {
		c.check(taken[T], "wiring", "main", 0, nil, "nobody takes what is sent as %s", T)
	}
	n := 0
	for _, rt := range c.runtimeRoots("main") {
		paths, _ := c.runtimePaths(rt)
		name := fnName(c, rt.fn)
		for _, p := range paths {
			var loader, linkage *Event
			for _, ev := range p.Events {
				if isCall(ev, "loading.NewLoader") {
					loader = ev
				}
				if isCall(ev, "chains.NewLinkage") {
					linkage = ev
				}
			}
			if loader == nil || p.St == nil {
				continue
			}
			n++
			var parents []*Term
			for _, v := range fieldsOf(p, func(a, v *Term) bool { return isNamed(deref(typOr(a)), "peer", "Parent") }) {
				parents = append(parents, v)
			}
			c.check(len(parents) >= 2, "wiring", name, loader.Pos, p, "connections and the distribution of messages do not share channels")
			for _, v := range parents {
				c.check(v == parents[0] && callName(v) == "peer.NewParent", "wiring", name, loader.Pos, p, "connections deliver messages to channels that are not read")
			}
			for f, T := range sent {
				for _, v := range fieldsOf(p, func(a, v *Term) bool { return a.Sym == f }) {
					ok := false
					for _, arg := range loader.Args {
						if strip(arg) == strip(v) {
							if ch, is := typOr(arg).Underlying().(*types.Chan); is && ch.Elem().String() == T {
								ok = true
							}
						}
					}
					c.check(ok, "wiring", name, loader.Pos, p, "the loader does not listen to what is sent on %v", v)
				}
			}
			if linkage != nil {
				for f := range scheme {
					for _, v := range fieldsOf(p, func(a, v *Term) bool { return a.Sym == f }) {
						ok := false
						for _, arg := range linkage.Args {
							ok = ok || strip(arg) == strip(v)
						}
						c.check(ok, "wiring", name, loader.Pos, p, "blocks are read for the network %v", v)
					}
				}
			}
		}
	}
	c.check(n > 0, "wiring", "main", 0, nil, "the loader is not created")
}

// oneReader: no two goroutines started here read the same channel of messages.
func (c *Ctx) oneReader(name string, p *Path, reads map[string]map[string]bool, fromPeers func(*Term) bool) {
	readers := map[string]bool{}
	var started func(evs []*Event, loop bool)
	started = func(evs []*Event, loop bool) {
		for _, ev := range evs {
			if ev.Loop != nil {
				for _, b := range ev.Loop.Bodies {
					started(b.Events, true)
				}
			}
			if ev.Kind != "go" {
				continue
			}
			mine := map[string]bool{}
			levels(ev.Bodies, func(b *Path) {
				if ch, _, _ := receivedFrom(b); ch != nil && fromPeers(ch) {
					mine[typOr(ch).String()] = true
				}
				for _, x := range b.Events {
					if x.Kind == "call" {
						for ch := range reads[x.Fn] {
							mine[ch] = true
						}
					}
				}
			})
			for ch := range mine {
				c.check(!readers[ch] && !loop, "in-order", name, ev.Pos, p, "messages are read by several goroutines at once: the order gets lost")
				readers[ch] = true
			}
		}
	}
	started(p.Events, false)
}
