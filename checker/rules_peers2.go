package main

import (
	"cmp"
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- addresses ----

// addrBase follows conversions between the forms of one network address (address with port, TCP address, text) down to
// the value they start from. whole tells whether the port is still part of the result.
func addrBase(t *Term) (base *Term, whole bool) {
	whole = true
	for t != nil {
		t = strip(t)
		switch callName(t) {
		case "(netip.AddrPort).Addr", "(netip.Addr).Unmap", "(netip.Addr).String":
			whole = whole && callName(t) != "(netip.AddrPort).Addr"
			t = t.Args[0]
			continue
		case "(netip.AddrPort).String", "(proto.TCPAddr).String", "proto.NewTCPAddrFromString", "(*net.TCPAddr).String", "(net.Addr).String",
			"net.TCPAddrFromAddrPort", "(proto.PeerInfo).String", "(*net.TCPAddr).AddrPort", "(*proto.PeerInfo).String":
			t = t.Args[0]
			continue
		case "netip.AddrPortFrom":
			b1, _ := addrBase(t.Args[0])
			if p := strip(t.Args[1]); callName(p) == "(netip.AddrPort).Port" {
				if b2, w2 := addrBase(p.Args[0]); b1 == b2 && w2 {
					return b1, whole
				}
			}
			return t, whole
		}
		if t.Op == "ext" && t.Sym == "0" {
			switch callName(t.Args[0]) {
			case "netip.ParseAddrPort", "netip.ParseAddr":
				t = t.Args[0].Args[0]
				continue
			}
		}
		break
	}
	return t, whole
}

// isLoopElem recognises the element of the list visited by a round of the loop.
func isLoopElem(t, list, it *Term) bool {
	return t != nil && isElemAt(strip(t), list, it)
}

// ---- C13: peer records ----

func isNilOrZero(t *Term) bool {
	t = strip(t)
	if t == nil {
		return false
	}
	n, isC := t.int64()
	return t.Op == "nil" || t.Op == "zero" || isC && n == 0 || t.Op == "mkslice" && isNilOrZero(t.Args[0])
}

// allPeers checks that a list holds one entry per record of the store, with the content of the record.
func (c *Ctx) allPeers(e *Engine, p *Path, list *Term) string {
	if list.Op == "sorted" {
		list = list.Args[0]
	}
	if emptyList(list) {
		return "it is empty"
	}
	d := listDefOf(e, p, list)
	if d == nil {
		return "it is not built by reading the records"
	}
	var it *Term
	for _, b := range d.ev.Loop.Bodies {
		for _, f := range b.own() {
			if n := callName(f.Atom); f.Val && (strings.HasSuffix(n, ").Next") || strings.HasSuffix(n, ").Valid")) && f.Atom.Args[0].Op != "" {
				it = f.Atom.Args[0]
			}
		}
	}
	if it == nil {
		return "it does not read the records"
	}
	full := false
	for _, ev := range p.Events {
		if isCallSuffix(ev, ").NewIterator") && ev.Res == it {
			if r := unface(ev.Args[1]); r.Op == "nil" {
				full = true
			} else if lo, hi, ok := rangeOf(e, p, ev); ok && isNilOrZero(lo) && isNilOrZero(hi) {
				full = true
			} else if r.Op == "alloc" && lo == nil && hi == nil {
				full = true
			}
		}
	}
	if !full {
		return "it does not cover every record"
	}
	if !exhausted(e, p, d.ev, it) {
		return "records can be left out at the end"
	}
	errChecked := false
	for _, f := range p.Facts {
		if f.Val && f.Atom.Op == "eq" && f.Atom.Args[1].Op == "nil" && strings.HasSuffix(callName(f.Atom.Args[0]), ").Error") && f.Atom.Args[0].Args[0] == it {
			errChecked = true
		}
	}
	if !errChecked {
		return "a failure while reading the records goes unnoticed"
	}
	for _, el := range d.elems {
		if el == nil {
			return "a record can be left out"
		}
		if why := recordEntry(el, it); why != "" {
			return why
		}
	}
	return ""
}

func iterCall(t, it *Term, name string) bool {
	return t != nil && strings.HasSuffix(callName(t), ")."+name) && len(t.Args) == 1 && t.Args[0] == it
}

// recordEntry checks an entry made from the record an iterator stands at.
func recordEntry(el, it *Term) string {
	if el.Op != "struct" {
		return fmt.Sprintf("an entry is %v", el)
	}
	of := func(t *Term, tag int) bool {
		rec, n, ok := fieldTag(strip(t))
		return ok && n == tag && rec.Op == "decoded" && iterCall(rec.Args[0], it, "Value")
	}
	ap := structField(el, "AddressPort")
	if callName(ap) != "netip.AddrPortFrom" || !keyAddr(ap.Args[0], it) {
		return fmt.Sprintf("the address of an entry is %v", ap)
	}
	if !of(ap.Args[1], tagPort) {
		return fmt.Sprintf("the port of an entry is %v", ap.Args[1])
	}
	for f, tag := range entryFields {
		if !of(structField(el, f), tag) {
			return fmt.Sprintf("the %s of an entry is %v", f, structField(el, f))
		}
	}
	v := strip(structField(el, "Version"))
	if v == nil || v.Op != "ext" || callName(v.Args[0]) != "proto.NewVersionFromString" || !of(v.Args[0].Args[0], tagVersion) {
		return fmt.Sprintf("the version of an entry is %v", v)
	}
	return ""
}

var entryFields = map[string]int{"Nonce": tagNonce, "Name": tagName, "State": tagState, "NextAttempt": tagNextAttempt, "Score": tagScore}

// keyAddr recognises the address a key read by the iterator was made from.
func keyAddr(t, it *Term) bool {
	t = strip(t)
	if t == nil {
		return false
	}
	if t.Op == "ext" && t.Sym == "0" && callName(t.Args[0]) == "netip.AddrFromSlice" {
		t = t.Args[0].Args[0]
	} else if callName(t) == "netip.AddrFrom4" {
		t = strip(t.Args[0])
		if t.Op == "arrayof" || t.Op == "array" && len(t.Args) == 1 {
			t = t.Args[0]
		}
	} else {
		return false
	}
	for t != nil && t.Op == "slice" {
		lo, ok := t.Args[1].int64()
		if !(ok && lo == 0 || t.Args[1].Op == "nil") {
			return false
		}
		if hi, ok := t.Args[2].int64(); ok && hi != 4 {
			return false
		}
		t = strip(t.Args[0])
	}
	return iterCall(t, it, "Key")
}

// recordOf checks a peer read from the record of an address.
func recordOf(el, addr *Term) string {
	if el == nil || el.Op != "struct" {
		return fmt.Sprintf("it is %v", el)
	}
	ap := structField(el, "AddressPort")
	if callName(ap) != "netip.AddrPortFrom" || ap.Args[0] != addr || storedField(ap.Args[1], tagPort) != addr {
		return fmt.Sprintf("its address is %v", ap)
	}
	for f, tag := range entryFields {
		if storedField(structField(el, f), tag) != addr {
			return fmt.Sprintf("its %s is %v", f, structField(el, f))
		}
	}
	if storedVersion(structField(el, "Version")) != addr {
		return fmt.Sprintf("its version is %v", structField(el, "Version"))
	}
	return ""
}

func runC13(c *Ctx) {
	c.peerAnchors()
	changes := map[string][]int{
		"RegisterPeer":    {tagPort, tagNonce, tagName, tagVersion, tagState, tagNextAttempt},
		"UpdatePeerScore": {tagScore},
		"UnregisterPeer":  {tagNextAttempt},
		"SuggestVersion":  {tagVersion, tagNextAttempt},
		"MarkAsHostile":   {tagState, tagPort},
	}
	names := []string{"port", "nonce", "name", "version", "state", "next attempt", "score"}
	for _, fn := range c.registryRoots() {
		paths, e := c.paths(fn)
		name := fnName(c, fn)
		may := map[int]bool{}
		for _, t := range changes[fn.Name()] {
			may[t] = true
		}
		for _, o := range peerOps(paths) {
			pos, p := o.s.ev.Pos, o.s.path
			if !c.check(!o.op.del, "kept", name, pos, p, "a peer record is deleted") {
				continue
			}
			if !c.check(o.addr != nil && o.val != nil && o.val.Op == "struct", "record", name, pos, p, "a peer record is written in an unknown form (key %v)", o.op.key) {
				continue
			}
			c.recordForm(o.val, name, o.s.ev, p)
			c.check(c.ownAddr(fn, e, o.addr, o.val), "own-record", name, pos, p, "the record of %v is written on behalf of another peer", o.addr)
			if peerAbsent(o.facts(), o.addr) {
				continue
			}
			if !c.check(peerPresent(e, o.facts(), o.addr), "read-first", name, pos, p, "the record of %v is overwritten without looking at what is stored", o.addr) {
				continue
			}
			for tag := tagPort; tag <= tagScore; tag++ {
				c.check(may[tag] || carried(o.val, tag, o.addr), "field-kept", name, pos, p, "the recorded %s of %v is changed to %v", names[tag], o.addr, tagged(o.val, tag))
			}
		}
	}
	c.atLeast("own-record", 6, "writes of peer records")
	c.atLeast("field-kept", 20, "fields taken over")
	if fn := c.root("peers", "Registry", "UpdatePeerScore"); fn != nil {
		paths, e := c.paths(fn)
		var addr, score *Term
		for i, p := range fn.Params {
			switch t := e.paramTerm(fn, i, p); {
			case isNamed(p.Type(), "netip", "Addr"):
				addr = t
			case isNamed(deref(p.Type()), "big", "Int"):
				score = t
			}
		}
		for _, p := range paths {
			if p.Kind != "return" || e.errOutcome(p) == errYes {
				continue
			}
			ok := false
			for _, o := range peerOps([]*Path{p}) {
				if o.addr == addr && tagged(o.val, tagScore) == score && e.okIfSuccess(p, dbWrite{ev: o.s.ev}) {
					ok = true
				}
			}
			c.check(ok, "score", fnName(c, fn), p.Pos, p, "a reported score is not recorded although no error is reported")
		}
		c.atLeast("score", 1, "recorded scores")
	}
	if fn := c.root("peers", "Registry", "Peer"); fn != nil {
		paths, e := c.paths(fn)
		addr := e.paramTerm(fn, 1, fn.Params[1])
		for _, p := range paths {
			if p.Kind != "return" || e.errOutcome(p) == errYes {
				continue
			}
			why := recordOf(p.ret(0), addr)
			c.check(why == "", "read-back", fnName(c, fn), p.Pos, p, "a peer is not read as it was recorded: %s", why)
		}
		c.atLeast("read-back", 1, "peers read")
	}
	if fn := c.root("peers", "Registry", "Peers"); fn != nil {
		paths, e := c.paths(fn)
		for _, p := range paths {
			if p.Kind != "return" || e.errOutcome(p) == errYes {
				continue
			}
			why := c.allPeers(e, p, p.ret(0))
			c.check(why == "", "all-peers", fnName(c, fn), p.Pos, p, "the list of all peers is wrong: %s", why)
		}
		c.atLeast("all-peers", 1, "lists of peers")
	}
	c.friends()
	c.connList()
}

// recordForm: every field of a record is stored under a tag of its own and in full width.
func (c *Ctx) recordForm(v *Term, name string, ev *Event, p *Path) {
	su := deref(v.Typ).Underlying().(*types.Struct)
	pt := c.p.namedType("peers", "Peer")
	for tag := tagPort; tag <= tagScore; tag++ {
		i := tagIndex(su, tag)
		if !c.check(i >= 0 && su.Field(i).Exported(), "record", name, ev.Pos, p, "field %d of the record is not stored", tag) {
			continue
		}
		n := 0
		for j := 0; j < su.NumFields(); j++ {
			if tagIndex(su, tag) == j || su.Tag(j) == su.Tag(i) {
				n++
			}
		}
		c.check(n == 1, "record", name, ev.Pos, p, "two fields of the record are stored under tag %d", tag)
		if pt == nil {
			continue
		}
		for f, ft := range entryFields {
			if ft != tag {
				continue
			}
			if k := fieldIdx(pt, f); k >= 0 {
				T := pt.Underlying().(*types.Struct).Field(k).Type()
				ok := types.Identical(T.Underlying(), su.Field(i).Type().Underlying())
				if isInt(&Term{Typ: T}) && isInt(&Term{Typ: su.Field(i).Type()}) {
					ok = widening(T, su.Field(i).Type())
				}
				c.check(ok, "record", name, ev.Pos, p, "%s is stored as %v", f, su.Field(i).Type())
			}
		}
	}
}

// ownAddr: a record is written for the peer an operation is about.
func (c *Ctx) ownAddr(fn *ssa.Function, e *Engine, addr, val *Term) bool {
	for i, p := range fn.Params {
		t := e.paramTerm(fn, i, p)
		switch {
		case isNamed(p.Type(), "netip", "Addr"):
			if addr == t {
				return true
			}
		case isNamed(p.Type(), "net", "Addr"):
			if b, _ := addrBase(addr); b == t {
				return true
			}
		}
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			b, _ := addrBase(addr)
			if b != nil && b.Op == "load" {
				b = b.Args[0]
			}
			if b != nil && (b.Op == "index" || b.Op == "iaddr") && b.Args[0] == t {
				// the port recorded is the one given with this very address
				port := strip(tagged(val, tagPort))
				if n, isC := port.int64(); isC && n == 0 {
					return false
				}
				if callName(port) != "(netip.AddrPort).Port" {
					return false
				}
				pb, w := addrBase(port.Args[0])
				if pb != nil && pb.Op == "load" {
					pb = pb.Args[0]
				}
				return pb == b && w
			}
		}
	}
	return false
}

// friends: the friendly peers are all peers in the state of a connected one.
func (c *Ctx) friends() {
	fn := c.root("peers", "Registry", "FriendlyPeers")
	if fn == nil {
		return
	}
	connected := c.peerState("PeerConnected")
	paths, e := c.paths(fn)
	for _, p := range paths {
		if p.Kind != "return" || e.errOutcome(p) == errYes {
			continue
		}
		why := c.selected(e, p, p.ret(0), func(facts []Fact, list, it *Term) (in, out bool) {
			in, out = true, true
			for k := int64(0); k <= 3; k++ {
				if elemStateFeasible(e, facts, list, it, k) {
					if k == connected {
						out = false
					} else {
						in = false
					}
				}
			}
			return
		})
		c.check(why == "", "friends", fnName(c, fn), p.Pos, p, "the list of friendly peers is wrong: %s", why)
	}
	c.atLeast("friends", 1, "lists of friendly peers")
}

// selected checks a list made of the elements of the complete list of peers for which sel proves in, leaving out only
// those for which it proves out. The elements are kept whole.
func (c *Ctx) selected(e *Engine, p *Path, list *Term, sel func(facts []Fact, list, it *Term) (in, out bool)) string {
	d, src, why := c.selection(e, p, list)
	if why != "" {
		return why
	}
	it := e.tt.mk("iter", d.ev.Loop.ID, types.Typ[types.Int])
	for i, b := range d.ev.Loop.Bodies {
		in, out := sel(b.own(), src, it)
		switch {
		case d.elems[i] == nil && !out:
			return "a peer that belongs to it can be left out"
		case d.elems[i] != nil && !in:
			return "a peer that does not belong to it can be listed"
		case d.elems[i] != nil && !whole(d.elems[i], src, it):
			return fmt.Sprintf("an entry is %v", d.elems[i])
		}
	}
	return ""
}

// selection finds the loop that makes a list out of the complete list of peers.
func (c *Ctx) selection(e *Engine, p *Path, list *Term) (*listDef, *Term, string) {
	if list.Op == "sorted" {
		list = list.Args[0]
	}
	d := listDefOf(e, p, list)
	if d == nil {
		return nil, nil, "it is not built in a known way"
	}
	it := e.tt.mk("iter", d.ev.Loop.ID, types.Typ[types.Int])
	var src *Term
	for _, b := range d.ev.Loop.Bodies {
		for _, f := range b.own() {
			if a := f.Atom; a.Op == "lt" && f.Val && a.Args[0] == it && a.Args[1].Op == "len" {
				src = a.Args[1].Args[0]
			}
		}
	}
	if src == nil {
		return nil, nil, "it is not made of the list of peers"
	}
	if !exhausted(e, p, d.ev, src) {
		return nil, nil, "peers can be left out at the end"
	}
	if why := c.allPeers(e, p, src); why != "" {
		return nil, nil, "of the list it is made of: " + why
	}
	return d, src, ""
}

// ---- C11: dialling ----

func runC11(c *Ctx) {
	c.peerAnchors()
	fn := c.root("peers", "Registry", "TakeAvailableAddresses")
	if fn == nil {
		return
	}
	paths, e := c.paths(fn)
	name := fnName(c, fn)
	for _, p := range paths {
		if p.Kind != "return" {
			continue
		}
		if e.errOutcome(p) == errYes {
			// nothing is reserved that is not given out
			walkPath(p, nil, nil, p, func(s site) {
				if s.ev.Kind == "mapset" && isPendTable(s.ev.Args[0]) {
					c.check(false, "reserved", name, s.ev.Pos, p, "an address is reserved although the operation fails")
				}
			})
			continue
		}
		d, src, why := c.selection(e, p, p.ret(0))
		if !c.check(why == "", "candidates", name, p.Pos, p, "the list of addresses to dial is wrong: %s", why) {
			continue
		}
		it := e.tt.mk("iter", d.ev.Loop.ID, types.Typ[types.Int])
		for i, b := range d.ev.Loop.Bodies {
			in, out := c.dialTable(e, b.own(), src, it)
			var res []*Event
			for _, ev := range b.Events {
				if ev.Kind == "mapset" && isPendTable(ev.Args[0]) {
					res = append(res, ev)
				}
			}
			if d.elems[i] == nil {
				c.check(out, "candidates", name, d.ev.Pos, b, "an address that may be dialled can be left out")
				c.check(len(res) == 0, "reserved", name, d.ev.Pos, b, "an address is reserved although it is not given out")
				continue
			}
			c.check(in == "", "candidates", name, d.ev.Pos, b, "an address is given out although %s", in)
			el := d.elems[i]
			l, ix, f, ok := elemField(el)
			c.check(ok && l == src && ix == it && f == "AddressPort", "candidates", name, d.ev.Pos, b, "the address given out is %v", el)
			ok = len(res) > 0
			for _, ev := range res {
				ok = ok && elemAddr(ev.Args[1], src, it)
			}
			c.check(ok, "reserved", name, d.ev.Pos, b, "an address is given out without being reserved")
		}
		// an entry for every loop
		walkPath(p, nil, nil, p, func(s site) {
			if s.ev.Kind == "mapset" && isPendTable(s.ev.Args[0]) && (len(s.inLoop) == 0 || s.inLoop[len(s.inLoop)-1] != d.ev) {
				c.check(false, "reserved", name, s.ev.Pos, p, "an address is reserved although it is not given out")
			}
		})
	}
	c.atLeast("candidates", 6, "decisions about candidates")
	c.atLeast("reserved", 4, "reservations")
	// reservations are made and released for the peer concerned only
	for _, f := range c.registryRoots() {
		ps, fe := c.paths(f)
		fname := fnName(c, f)
		walk(ps, func(s site) {
			switch {
			case s.ev.Kind == "mapset" && isPendTable(s.ev.Args[0]):
				c.check(f == fn, "reservation", fname, s.ev.Pos, s.path, "an address is reserved without being given out for dialling")
			case s.ev.Kind == "mapdel" && isPendTable(s.ev.Args[0]):
				c.check(s.ev.Fn != "clear" && c.ownAddr(f, fe, s.ev.Args[1], nil), "reservation", fname, s.ev.Pos, s.path, "the reservation of another peer's address is dropped")
			case s.ev.Kind == "store" && s.ev.Args[0].Op == "faddr" && s.ev.Args[0].Typ != nil && isPendType(s.ev.Args[0].Typ):
				if fld, own := recvField(f, s.ev.Args[0]); own && fld != "" {
					c.check(false, "reservation", fname, s.ev.Pos, s.path, "the table of reservations is replaced")
				}
			}
		})
	}
	c.atLeast("reservation", 3, "changes of reservations")
	c.released()
	c.attempts()
}

func isPendType(T types.Type) bool {
	m, ok := deref(T).Underlying().(*types.Map)
	if !ok {
		return false
	}
	su, ok := m.Elem().Underlying().(*types.Struct)
	return ok && su.NumFields() == 0 && isNamed(m.Key(), "netip", "Addr")
}

// elemAddr recognises the address of the peer visited by a round of the loop.
func elemAddr(t, src, it *Term) bool {
	b, _ := addrBase(t)
	l, ix, f, ok := elemField(b)
	return ok && l == src && ix == it && f == "AddressPort"
}

// dialTable: what keeps an element from being dialled under the facts ("" if nothing can), and whether something does.
func (c *Ctx) dialTable(e *Engine, facts []Fact, src, it *Term) (in string, out bool) {
	hostile := c.peerState("PeerHostile")
	host, others := false, false
	for k := int64(0); k <= 3; k++ {
		if elemStateFeasible(e, facts, src, it, k) {
			if k == hostile {
				host = true
			} else {
				others = true
			}
		}
	}
	out = !others
	port, self, late, conn, pend := 0, 0, 0, 0, 0
	is := func(t *Term, f string) bool {
		l, ix, g, ok := elemField(t)
		return ok && l == src && ix == it && g == f
	}
	isPort := func(t *Term) bool {
		t = strip(t)
		return callName(t) == "(netip.AddrPort).Port" && is(t.Args[0], "AddressPort")
	}
	now := func(t *Term) bool { return callName(strip(t)) == "time.Now" }
	zero := e.feasible(facts, func(t *Term) (int64, bool) { return 0, isPort(t) })
	nonzero := e.feasible(facts, func(t *Term) (int64, bool) { return 1, isPort(t) })
	switch {
	case !zero:
		port = -1
	case !nonzero:
		port = 1
	}
	for _, f := range facts {
		a := f.Atom
		switch {
		case a.Op == "eq":
			for i := 0; i < 2; i++ {
				if elemAddr(a.Args[i], src, it) && isSelf(a, a.Args[i]) {
					self = sign(f.Val)
				}
			}
		case callName(a) == "(time.Time).After" && is(a.Args[0], "NextAttempt") && now(a.Args[1]),
			callName(a) == "(time.Time).Before" && now(a.Args[0]) && is(a.Args[1], "NextAttempt"):
			late = sign(f.Val)
		case callName(a) == "(time.Time).After" && now(a.Args[0]) && is(a.Args[1], "NextAttempt"),
			callName(a) == "(time.Time).Before" && is(a.Args[0], "NextAttempt") && now(a.Args[1]):
			late = sign(!f.Val)
		case a.Op == "has" && isConnTable(a.Args[0]) && elemAddr(a.Args[1], src, it):
			conn = sign(f.Val)
		case a.Op == "has" && isPendTable(a.Args[0]) && elemAddr(a.Args[1], src, it):
			pend = sign(f.Val)
		}
	}
	out = out || port == 1 || self == 1 || late == 1 || conn == 1 || pend == 1
	switch {
	case host:
		in = "its peer may be recorded as hostile"
	case port != -1:
		in = "its port may be unknown"
	case self != -1:
		in = "it may be the detector's own"
	case late != -1:
		in = "the time of the next attempt may not have come"
	case conn != -1:
		in = "its peer may be connected"
	case pend != -1:
		in = "it may already be reserved"
	}
	return
}

// released: the reservation ends with the attempt, whatever its outcome, and the next attempt is put off.
func (c *Ctx) released() {
	for _, n := range []string{"RegisterPeer", "UnregisterPeer"} {
		fn := c.root("peers", "Registry", n)
		if fn == nil {
			continue
		}
		paths, e := c.paths(fn)
		var addr *Term
		for i, p := range fn.Params {
			if isNamed(p.Type(), "netip", "Addr") {
				addr = e.paramTerm(fn, i, p)
			}
		}
		for _, p := range paths {
			if p.Kind != "return" {
				continue
			}
			ok := false
			for _, ev := range p.Events {
				if ev.Kind == "mapdel" && isPendTable(ev.Args[0]) && ev.Args[1] == addr {
					ok = true
				}
			}
			c.check(ok, "released", fnName(c, fn), p.Pos, p, "the address stays reserved after the attempt ended")
		}
	}
	c.atLeast("released", 4, "ends of attempts")
	if fn := c.root("peers", "Registry", "UnregisterPeer"); fn != nil {
		paths, _ := c.paths(fn)
		for _, o := range peerOps(paths) {
			c.check(c.delayed(tagged(o.val, tagNextAttempt)), "delayed", fnName(c, fn), o.s.ev.Pos, o.s.path, "the next attempt is set to %v instead of ten minutes later", tagged(o.val, tagNextAttempt))
		}
		_, e := c.paths(fn)
		for _, p := range paths {
			if p.Kind == "return" && e.errOutcome(p) != errYes {
				n := 0
				for _, o := range peerOps([]*Path{p}) {
					if e.okIfSuccess(p, dbWrite{ev: o.s.ev}) {
						n++
					}
				}
				c.check(n > 0, "delayed", fnName(c, fn), p.Pos, p, "the next attempt is not put off after a disconnection")
			}
		}
	}
	if fn := c.root("peers", "Registry", "SuggestVersion"); fn != nil {
		paths, _ := c.paths(fn)
		for _, o := range peerOps(paths) {
			c.check(c.delayed(tagged(o.val, tagNextAttempt)), "delayed", fnName(c, fn), o.s.ev.Pos, o.s.path, "the next attempt is set to %v instead of ten minutes later", tagged(o.val, tagNextAttempt))
		}
	}
	c.atLeast("delayed", 3, "delays of the next attempt")
}

// attempts: every address taken gets one attempt to exactly this address; a failed one is unregistered.
func (c *Ctx) attempts() {
	taken := 0
	for _, rt := range c.runtimeRoots("main") {
		paths, e := c.runtimePaths(rt)
		name := fnName(c, rt.fn)
		walk(paths, func(s site) {
			if isCall(s.ev, "outgoing.EstablishConnection") {
				c.check(len(s.inGo) > 0 || len(s.inLoop) == 0, "attempt", name, s.ev.Pos, s.path, "a connection is made while everything else waits for it")
			}
			if !isCall(s.ev, "(*peers.Registry).TakeAvailableAddresses") {
				return
			}
			// on this path (or body), either the call failed or every address is attempted
			list := e.tt.mk("ext", "0", nil, s.ev.Res)
			errT := errOf(e, s.ev)
			if s.ev.Res != nil && len(s.path.Facts) > 0 && errT != nil && e.knownNonNil(s.path.Facts, errT) {
				return
			}
			if s.path.Kind != "back" && s.path.Kind != "return" {
				return
			}
			if s.path.Kind == "back" && s.path != s.top && e.feasible(s.path.Facts, func(t *Term) (int64, bool) {
				if t.Op == "len" && sameRes(t.Args[0], s.ev.Res) {
					return 0, true
				}
				return 0, false
			}) && !c.hasLoopOver(s, s.ev.Res) && emptyKnown(e, s.path.Facts, s.ev.Res) {
				return
			}
			_ = list
			taken++
			ok := false
			for _, ev := range s.path.Events[s.idx:] {
				if ev.Kind != "loop" {
					continue
				}
				it := e.tt.mk("iter", ev.Loop.ID, types.Typ[types.Int])
				var src *Term
				for _, b := range ev.Loop.Bodies {
					for _, f := range b.own() {
						if a := f.Atom; a.Op == "lt" && f.Val && a.Args[0] == it && a.Args[1].Op == "len" && sameRes(a.Args[1].Args[0], s.ev.Res) {
							src = a.Args[1].Args[0]
						}
					}
				}
				if src == nil || !exhausted(e, s.path, ev, src) {
					continue
				}
				ok = true
				for _, b := range ev.Loop.Bodies {
					n := 0
					for _, g := range b.Events {
						if g.Kind == "go" {
							n++
							c.attempt(e, g, src, it, name)
						}
					}
					c.check(n == 1 || b.Kind != "back", "attempt", name, ev.Pos, b, "an address that was taken gets %d attempts", n)
				}
			}
			c.check(ok, "attempt", name, s.ev.Pos, s.path, "addresses that were taken stay reserved without an attempt")
		})
	}
	c.check(taken > 0, "attempt", "main", 0, nil, "no address is ever taken for dialling")
}

func sameRes(t, res *Term) bool {
	return t != nil && (t == res || t.Op == "ext" && t.Sym == "0" && t.Args[0] == res) || t != nil && res != nil && res.Op == "ext" && t.Op == "ext" && t.Args[0] == res.Args[0] && t.Sym == "0"
}

func (c *Ctx) hasLoopOver(s site, res *Term) bool {
	for _, ev := range s.path.Events[s.idx:] {
		if ev.Kind == "loop" {
			for _, b := range ev.Loop.Bodies {
				for _, f := range b.own() {
					if a := f.Atom; a.Op == "lt" && a.Args[1].Op == "len" && sameRes(a.Args[1].Args[0], res) {
						return true
					}
				}
			}
		}
	}
	return false
}

// emptyKnown: the list is known to be empty.
func emptyKnown(e *Engine, facts []Fact, res *Term) bool {
	return !e.feasible(facts, func(t *Term) (int64, bool) {
		if t.Op == "len" && sameRes(t.Args[0], res) {
			return 1, true
		}
		return 0, false
	})
}

func (c *Ctx) attempt(e *Engine, g *Event, src, it *Term, name string) {
	for _, b := range g.Bodies {
		if b.Kind != "return" {
			continue
		}
		failed, tried, unreg := false, false, false
		for _, ev := range b.Events {
			switch {
			case isCall(ev, "outgoing.EstablishConnection"):
				tried = true
				addr := structField(ev.Vals[1], "Address")
				bs, w := addrBase(addr)
				c.check(isLoopElem(bs, src, it) && w, "attempt", name, ev.Pos, b, "the address dialled is %v instead of the one taken", addr)
				if er := errOf(e, ev); er != nil && !e.knownNil(b.Facts, er) {
					failed = true
				}
			case isCallSuffix(ev, ".VersionProvider).SuggestVersion", "Registry).SuggestVersion"):
				bs, _ := addrBase(ev.Args[1])
				c.check(isLoopElem(bs, src, it), "attempt", name, ev.Pos, b, "the version is chosen for %v instead of the address taken", ev.Args[1])
			case isCall(ev, "(*peers.Registry).UnregisterPeer"):
				bs, _ := addrBase(ev.Args[1])
				if c.check(isLoopElem(bs, src, it), "attempt", name, ev.Pos, b, "a failed attempt unregisters %v instead of the address taken", ev.Args[1]) {
					unreg = true
				}
			}
		}
		if !tried {
			failed = true
		}
		c.check(!failed || unreg, "attempt", name, g.Pos, b, "the address of a failed attempt stays reserved")
		c.check(failed || !unreg, "attempt", name, g.Pos, b, "a peer is unregistered although the attempt did not fail")
	}
}

// ---- C12: gossip ----

func runC12(c *Ctx) {
	c.peerAnchors()
	unknown := c.peerState("PeerUnknown")
	fn := c.root("peers", "Registry", "AppendAddresses")
	if fn == nil {
		return
	}
	paths, e := c.paths(fn)
	name := fnName(c, fn)
	list := e.paramTerm(fn, 1, fn.Params[1])
	n := 0
	for _, p := range paths {
		if p.Kind != "return" {
			continue
		}
		var loop *Event
		var it *Term
		for _, ev := range p.Events {
			if ev.Kind != "loop" {
				continue
			}
			i := e.tt.mk("iter", ev.Loop.ID, types.Typ[types.Int])
			for _, b := range ev.Loop.Bodies {
				for _, f := range b.own() {
					if a := f.Atom; a.Op == "lt" && f.Val && a.Args[0] == i && a.Args[1].Op == "len" && a.Args[1].Args[0] == list {
						loop, it = ev, i
					}
				}
			}
		}
		if !c.check(loop != nil, "every-address", name, p.Pos, p, "the addresses are not looked at") {
			continue
		}
		full := exhausted(e, p, loop, list)
		storeErr := false
		for _, f := range p.Facts {
			if f.Atom.Op == "eq" && f.Atom.Args[1].Op == "nil" && !f.Val && dbErr(f.Atom.Args[0]) {
				storeErr = true
			}
		}
		c.check(full || storeErr, "every-address", name, p.Pos, p, "addresses at the end of the list are left out")
		// the count goes with the records
		count := p.ret(0)
		var ph *LoopPhi
		for _, q := range loop.Loop.Phis {
			if q.Term == strip(count) {
				ph = q
			}
		}
		if c.check(ph != nil && isNilOrZero(ph.Init), "count", name, p.Pos, p, "the number of new addresses is %v", count) {
			for i, b := range loop.Loop.Bodies {
				if i >= len(ph.Backs) {
					break
				}
				stored := 0
				for _, o := range peerOps([]*Path{b}) {
					if e.knownNil(b.Facts, o.s.ev.Res) {
						stored++
					}
				}
				base, k := offset(ph.Backs[i])
				c.check(base == ph.Term && k == int64(stored), "count", name, loop.Pos, b, "the number of new addresses becomes %v after %d new records", ph.Backs[i], stored)
			}
		}
		for _, b := range loop.Loop.Bodies {
			n++
			ops := peerOps([]*Path{b})
			why, unfit := c.gossiped(e, b.own(), list, it)
			if len(ops) == 0 {
				failed := false
				for _, f := range b.own() {
					if f.Atom.Op == "eq" && f.Atom.Args[1].Op == "nil" && !f.Val && dbErr(f.Atom.Args[0]) {
						failed = true
					}
				}
				c.check(unfit || failed || b.Kind != "back", "new-address", name, loop.Pos, b, "an address is not recorded although it may be new and valid")
				continue
			}
			c.check(why == "", "new-address", name, ops[0].s.ev.Pos, b, "an address is recorded although %s", why)
			c.check(len(ops) == 1, "new-address", name, ops[0].s.ev.Pos, b, "%d records are written for one address", len(ops))
			o := ops[0]
			bs, _ := addrBase(o.addr)
			c.check(isLoopElem(bs, list, it), "new-record", name, o.s.ev.Pos, b, "the record is stored for %v", o.addr)
			st, isC := tagged(o.val, tagState).int64()
			c.check(isC && st == unknown, "new-record", name, o.s.ev.Pos, b, "a new peer is recorded with state %v", tagged(o.val, tagState))
			port := strip(tagged(o.val, tagPort))
			okPort := false
			if callName(port) == "(netip.AddrPort).Port" {
				pb, w := addrBase(port.Args[0])
				okPort = isLoopElem(pb, list, it) && w
			}
			c.check(okPort, "new-record", name, o.s.ev.Pos, b, "a new peer is recorded with port %v", port)
			c.check(isZeroTerm(tagged(o.val, tagNextAttempt)), "new-record", name, o.s.ev.Pos, b, "a new peer is recorded with the next attempt at %v", tagged(o.val, tagNextAttempt))
		}
	}
	c.atLeast("new-address", 5, "decisions about addresses")
	c.atLeast("new-record", 3, "new records")
	c.gossipHandlers()
}

func isZeroTerm(t *Term) bool {
	t = strip(t)
	return t != nil && (t.Op == "zero" || t.Op == "nil")
}

// gossiped tells why an address need not be recorded under the facts ("" if every condition for recording it is known), and whether that is certain.
func (c *Ctx) gossiped(e *Engine, facts []Fact, list, it *Term) (why string, unfit bool) {
	is := func(t *Term) bool {
		b, _ := addrBase(t)
		return isLoopElem(b, list, it)
	}
	parsed, v4, loop, self, known := 0, 0, 0, 0, 0
	for _, f := range facts {
		a := f.Atom
		switch {
		case a.Op == "eq" && a.Args[1].Op == "nil" && a.Args[0].Op == "ext" && a.Args[0].Sym == "1" && (callName(a.Args[0].Args[0]) == "netip.ParseAddrPort" || callName(a.Args[0].Args[0]) == "netip.ParseAddr") && is(a.Args[0].Args[0].Args[0]):
			parsed = sign(f.Val)
		case callName(a) == "(netip.Addr).Is4" && is(a.Args[0]):
			v4 = sign(f.Val)
		case callName(a) == "(netip.Addr).IsLoopback" && is(a.Args[0]):
			loop = sign(f.Val)
		case a.Op == "eq" && (is(a.Args[0]) && isSelf(a, a.Args[0]) || is(a.Args[1]) && isSelf(a, a.Args[1])):
			self = sign(f.Val)
		case a.Op == "ext" && a.Sym == "0" && a.Args[0].Op == "hasKey":
			if k := peerKey(a.Args[0].Args[1]); k != nil && is(k) {
				known = sign(f.Val)
			}
		case a.Op == "errorsis" && a.Args[0].Op == "ext" && a.Args[0].Args[0].Op == "get" && isGlobalLoad(a.Args[1], "leveldb.ErrNotFound"):
			if k := peerKey(a.Args[0].Args[0].Args[1]); k != nil && is(k) && f.Val {
				known = -1
			}
		case a.Op == "eq" && a.Args[1].Op == "nil" && a.Args[0].Op == "ext" && a.Args[0].Sym == "1" && a.Args[0].Args[0].Op == "get" && f.Val:
			if k := peerKey(a.Args[0].Args[0].Args[1]); k != nil && is(k) {
				known = 1
			}
		}
	}
	switch {
	case parsed == -1:
		return "it is malformed", true
	case v4 == -1:
		return "it is not an IPv4 address", true
	case loop == 1:
		return "it is a loopback address", true
	case self == 1:
		return "it is the detector's own", true
	case known == 1:
		return "it is known already", true
	case v4 != 1:
		return "it may not be an IPv4 address", false
	case loop != -1:
		return "it may be a loopback address", false
	case self != -1:
		return "it may be the detector's own", false
	case known != -1:
		return "it may be known already", false
	}
	return "", false
}

// message recognises the message being handled as one of the given type and gives the term of the message.
func messageIs(facts []Fact, typ string) *Term {
	for _, f := range facts {
		if f.Atom.Op == "istype" && f.Val && strings.HasSuffix(f.Atom.Sym, typ) {
			return f.Atom.Args[0]
		}
	}
	return nil
}

// fieldOfMessage recognises field f of the message m (asserted to its type).
func fieldOfMessage(t, m *Term, f string) bool {
	t = strip(t)
	if t == nil || !endsWithField(t, f) {
		return false
	}
	b := strip(fieldBase(t))
	for b != nil && (b.Op == "typeassert" || b.Op == "load") {
		b = strip(b.Args[0])
	}
	return b == m
}

// gossipHandlers: every address of a received list is offered, and a request is answered with the friendly peers.
func (c *Ctx) gossipHandlers() {
	offered, replied := 0, 0
	for _, rt := range c.runtimeRoots("main") {
		paths, e := c.runtimePaths(rt)
		name := fnName(c, rt.fn)
		walkPaths(paths, func(p *Path) {
			if m := messageIs(p.own(), "proto.PeersMessage"); m != nil && p.Kind != "exit" {
				offered++
				why := c.offer(e, p, m)
				c.check(why == "", "offered", name, p.Pos, p, "received addresses are lost: %s", why)
			}
			if m := messageIs(p.own(), "proto.GetPeersMessage"); m != nil {
				replied++
				why := c.reply(e, p, m)
				c.check(why == "", "reply", name, p.Pos, p, "a request for peers is answered wrongly: %s", why)
			}
		})
	}
	c.check(offered > 0, "offered", "main", 0, nil, "received lists of addresses are not handled")
	c.check(replied > 0, "reply", "main", 0, nil, "requests for peers are not handled")
}

// walkPaths visits paths and, recursively, the bodies of their loops and goroutines.
func walkPaths(paths []*Path, f func(p *Path)) {
	for _, p := range paths {
		f(p)
		for _, ev := range p.Events {
			if ev.Kind == "loop" {
				walkPaths(ev.Loop.Bodies, f)
			}
			if ev.Kind == "go" {
				walkPaths(ev.Bodies, f)
			}
		}
	}
}

func (c *Ctx) offer(e *Engine, p *Path, m *Term) string {
	for _, ev := range p.Events {
		if !isCall(ev, "(*peers.Registry).AppendAddresses") {
			continue
		}
		d := listDefOf(e, p, ev.Args[1])
		if d == nil {
			return "the list offered to the registry is not built in a known way"
		}
		it := e.tt.mk("iter", d.ev.Loop.ID, types.Typ[types.Int])
		var src *Term
		for _, b := range d.ev.Loop.Bodies {
			for _, f := range b.own() {
				if a := f.Atom; a.Op == "lt" && f.Val && a.Args[0] == it && a.Args[1].Op == "len" && fieldOfMessage(a.Args[1].Args[0], m, "Peers") {
					src = a.Args[1].Args[0]
				}
			}
		}
		if src == nil {
			return "the list offered to the registry is not made of the received one"
		}
		if !exhausted(e, p, d.ev, src) {
			return "addresses at the end are left out"
		}
		for i, b := range d.ev.Loop.Bodies {
			if el := d.elems[i]; el != nil {
				bs, w := addrBase(el)
				if !(isLoopElem(bs, src, it) && w) && !addrLiteral(b, el, src, it) {
					return fmt.Sprintf("the address offered is %v", el)
				}
				continue
			}
			malformed := false
			for _, f := range b.own() {
				if a := f.Atom; a.Op == "eq" && a.Args[1].Op == "nil" && !f.Val && a.Args[0].Op == "ext" && callName(a.Args[0].Args[0]) == "netip.ParseAddrPort" {
					malformed = true
				}
			}
			if !malformed {
				return "a well-formed address is left out"
			}
		}
		return ""
	}
	return "they are not offered to the registry"
}

// addrLiteral recognises a TCP address put together from the parts of the element of the loop.
func addrLiteral(b *Path, el, src, it *Term) bool {
	if el.Op != "alloc" || b.St == nil {
		return false
	}
	var ip, port *Term
	for a, v := range b.St.mem {
		if a.Op == "faddr" && a.Args[0] == el {
			switch a.Sym {
			case "IP":
				ip = strip(v)
			case "Port":
				port = strip(v)
			default:
				if !isNilOrZero(v) {
					return false
				}
			}
		}
	}
	part := func(t *Term, call, field string) bool {
		if t == nil {
			return false
		}
		if callName(t) == call {
			x := t.Args[0]
			if call == "(netip.Addr).AsSlice" {
				bs, _ := addrBase(x)
				return isLoopElem(bs, src, it)
			}
			bs, w := addrBase(x)
			return w && isLoopElem(bs, src, it)
		}
		if !endsWithField(t, field) {
			return false
		}
		if t.Op == "load" {
			t = t.Args[0]
		}
		return isLoopElem(t.Args[0], src, it) || t.Args[0].Op == "iaddr" && t.Args[0].Args[0] == src && t.Args[0].Args[1] == it
	}
	return part(ip, "(netip.Addr).AsSlice", "Addr") && part(port, "(netip.AddrPort).Port", "Port")
}

func (c *Ctx) reply(e *Engine, p *Path, m *Term) string {
	var friends *Event
	sent := 0
	why := ""
	for _, ev := range p.Events {
		if isCall(ev, "(*peers.Registry).FriendlyPeers") {
			friends = ev
		}
		if !isCallSuffix(ev, ".Peer).SendMessage") {
			continue
		}
		sent++
		if friends == nil {
			return "without the list of friendly peers"
		}
		if b := fieldBase2(ev.Args[0]); b == nil || !sameMessage(ev.Args[0], m) {
			why = fmt.Sprintf("the answer goes to %v", ev.Args[0])
		}
		msg := ev.Vals[1]
		list := structField(unface(msg), "Peers")
		if list == nil {
			return "the answer is not a list of peers"
		}
		if list.Op == "sorted" {
			list = list.Args[0]
		}
		d := listDefOf(e, p, list)
		if d == nil {
			return "the list is not built in a known way"
		}
		it := e.tt.mk("iter", d.ev.Loop.ID, types.Typ[types.Int])
		var src *Term
		for _, b := range d.ev.Loop.Bodies {
			for _, f := range b.own() {
				if a := f.Atom; a.Op == "lt" && f.Val && a.Args[0] == it && a.Args[1].Op == "len" && sameRes(a.Args[1].Args[0], friends.Res) {
					src = a.Args[1].Args[0]
				}
			}
		}
		if src == nil {
			return "the list is not made of the friendly peers"
		}
		if !exhausted(e, p, d.ev, src) {
			return "friendly peers at the end are left out"
		}
		for _, el := range d.elems {
			if el == nil {
				return "a friendly peer can be left out"
			}
			if !friendAddr(structField(el, "Addr"), src, it) {
				return fmt.Sprintf("the address of an entry is %v", structField(el, "Addr"))
			}
			port := strip(structField(el, "Port"))
			if callName(port) != "(netip.AddrPort).Port" || !elemAddr(port.Args[0], src, it) {
				return fmt.Sprintf("the port of an entry is %v", port)
			}
		}
	}
	if friends != nil && sent == 0 {
		if er := errOf(e, friends); er != nil && e.knownNonNil(p.Facts, er) {
			return ""
		}
	}
	if sent != 1 {
		return fmt.Sprintf("%d answers are sent", sent)
	}
	return why
}

func fieldBase2(t *Term) *Term {
	t = strip(t)
	if t == nil || len(t.Args) == 0 {
		return nil
	}
	return fieldBase(t)
}

// sameMessage: the peer and the message are fields of the same received value.
func sameMessage(peer, m *Term) bool {
	pb, mb := fieldBase2(peer), fieldBase2(m)
	return pb != nil && pb == mb && endsWithField(peer, "ID")
}

// friendAddr recognises the IP address of the peer visited by a round of the loop.
func friendAddr(t, src, it *Term) bool {
	t = strip(t)
	if t == nil {
		return false
	}
	switch callName(t) {
	case "net.IPv4":
		for i, a := range t.Args {
			a = strip(a)
			if a == nil || a.Op == "load" {
				a = a.Args[0]
			}
			if a.Op != "index" && a.Op != "iaddr" {
				return false
			}
			if n, ok := a.Args[1].int64(); !ok || n != int64(i) {
				return false
			}
			x := strip(a.Args[0])
			if x.Op == "arr" {
				x = x.Args[0]
			}
			if callName(x) != "(netip.Addr).As4" || !elemAddr(x.Args[0], src, it) {
				return false
			}
		}
		return true
	case "(netip.Addr).AsSlice":
		return elemAddr(t.Args[0], src, it)
	}
	return false
}

// ---- C29: versions ----

func isVersions(T types.Type) bool {
	if T == nil {
		return false
	}
	s, ok := T.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), "proto", "Version")
}

// versionList recognises the registry's list of supported versions.
func versionList(t *Term) bool {
	t = strip(t)
	return t != nil && isVersions(t.Typ) && isRecvField(t)
}

func runC29(c *Ctx) {
	c.peerAnchors()
	c.preparedVersions()
	fn := c.root("peers", "Registry", "SuggestVersion")
	if fn == nil {
		return
	}
	unknown, connected := c.peerState("PeerUnknown"), c.peerState("PeerConnected")
	paths, e := c.paths(fn)
	name := fnName(c, fn)
	addr := e.paramTerm(fn, 1, fn.Params[1])
	n := 0
	for _, p := range paths {
		if p.Kind != "return" {
			continue
		}
		ops := peerOps([]*Path{p})
		if e.errOutcome(p) == errYes {
			for _, f := range p.Facts {
				_ = f
			}
			continue
		}
		n++
		v := p.ret(0)
		recorded := func(state func(t *Term) bool) bool {
			for _, o := range ops {
				ver := strip(tagged(o.val, tagVersion))
				if o.addr == addr && callName(ver) == "(proto.Version).String" && ver.Args[0] == v && state(tagged(o.val, tagState)) && e.okIfSuccess(p, dbWrite{ev: o.s.ev}) {
					return true
				}
			}
			return false
		}
		isUnknown := func(t *Term) bool {
			k, ok := t.int64()
			return ok && k == unknown || storedField(t, tagState) == addr
		}
		states := storedStates(e, p.Facts, addr)
		switch {
		case peerAbsent(p.Facts, addr):
			l, i := versionAt(v)
			k, isC := int64(-1), false
			if i != nil {
				k, isC = i.int64()
			}
			c.check(l != nil && isC && k == 0, "first", name, p.Pos, p, "a peer never seen before gets %v instead of the best version", v)
			c.check(recorded(isUnknown), "recorded", name, p.Pos, p, "the version suggested to a new peer is not recorded")
		case states[unknown] && len(states) == 1:
			why := c.nextVersion(e, p, v, addr)
			c.check(why == "", "next", name, p.Pos, p, "the version suggested for the next attempt is wrong: %s", why)
			c.check(recorded(isUnknown), "recorded", name, p.Pos, p, "the version suggested for the next attempt is not recorded")
		case states[connected] && len(states) == 1:
			c.check(storedVersion(v) == addr, "connected", name, p.Pos, p, "a peer that was connected with a version gets %v", v)
		default:
			c.check(false, "state", name, p.Pos, p, "a version is suggested although the state of the peer may be neither unknown nor connected")
		}
	}
	c.atLeast("first", 1, "first suggestions")
	c.atLeast("next", 2, "next suggestions")
	c.atLeast("connected", 1, "suggestions to connected peers")
	// every peer that is not hostile is answered unless the store fails
	for _, p := range paths {
		if p.Kind != "return" || e.errOutcome(p) == errNo {
			continue
		}
		bad := false
		for _, f := range p.Facts {
			if f.Atom.Op == "eq" && f.Atom.Args[1].Op == "nil" && !f.Val && dbErr(f.Atom.Args[0]) || !f.Val && callName(f.Atom) == "utf8.ValidString" || !f.Val && callName(f.Atom) == "(netip.Addr).Is4" {
				bad = true
			}
		}
		if r := p.errResult(); r != nil && dbErr(r) {
			bad = true
		}
		st := storedStates(e, p.Facts, addr)
		c.check(bad || !st[unknown] && !st[connected], "answered", name, p.Pos, p, "no version is suggested to a peer that is not hostile although nothing failed")
	}
	c.requestByVersion()
	c.suggestedUsed()
}

// versionAt recognises an element of the list of supported versions.
func versionAt(t *Term) (list, idx *Term) {
	t = strip(t)
	if t == nil {
		return nil, nil
	}
	if t.Op == "load" {
		t = t.Args[0]
	}
	if (t.Op == "index" || t.Op == "iaddr") && versionList(t.Args[0]) {
		return t.Args[0], t.Args[1]
	}
	return nil, nil
}

// sameVersionFacts tells whether the facts say that the recorded version of the peer is the one at the given index.
func sameVersionFacts(facts []Fact, addr, list, it *Term) (major, minor int) {
	for _, f := range facts {
		a := f.Atom
		if a.Op != "eq" && a.Op != "cmp" {
			continue
		}
		for i := 0; i < 2; i++ {
			x, y := strip(a.Args[i]), strip(a.Args[1-i])
			if nx := callName(x); a.Op == "eq" && nx == callName(y) && (nx == "(proto.Version).Major" || nx == "(proto.Version).Minor") && storedVersion(x.Args[0]) == addr {
				if l, ix := versionAt(y.Args[0]); l == list && ix == it {
					if nx == "(proto.Version).Major" {
						major = sign(f.Val)
					} else {
						minor = sign(f.Val)
					}
				}
			}
			// CmpMinor == 0: same major and minor
			if n, ok := y.int64(); ok && n == 0 && a.Op == "eq" && callName(x) == "(proto.Version).CmpMinor" {
				for k := 0; k < 2; k++ {
					if l, ix := versionAt(x.Args[k]); l == list && ix == it && storedVersion(x.Args[1-k]) == addr {
						major, minor = sign(f.Val), sign(f.Val)
					}
				}
			}
		}
	}
	return
}

// nextVersion checks the version chosen after an unsuccessful attempt: the one after the recorded version, or the best.
func (c *Ctx) nextVersion(e *Engine, p *Path, v, addr *Term) string {
	list, idx := versionAt(v)
	if list == nil {
		return fmt.Sprintf("%v is not one of the supported versions", v)
	}
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		it := e.tt.mk("iter", ev.Loop.ID, types.Typ[types.Int])
		used := false
		for _, b := range ev.Loop.Bodies {
			ma, mi := sameVersionFacts(b.own(), addr, list, it)
			used = used || ma != 0 || mi != 0
			if ma != -1 && mi != -1 {
				return "the recorded version can be passed over"
			}
		}
		if len(ev.Loop.Bodies) == 0 {
			ma, mi := sameVersionFacts(p.Facts, addr, list, it)
			used = ma != 0 || mi != 0
		}
		if !used {
			continue
		}
		from := p.Facts[min(ev.NFacts, len(p.Facts)):]
		ma, mi := sameVersionFacts(from, addr, list, it)
		matched := ma == 1 && mi == 1
		some := false
		for n := int64(1); n <= 4; n++ {
			for i := int64(0); i <= n; i++ {
				if matched == (i == n) {
					continue
				}
				val := func(t *Term) (int64, bool) {
					switch {
					case t == it:
						return i, true
					case t.Op == "len" && t.Args[0] == list:
						return n, true
					}
					return 0, false
				}
				if !e.feasible(from, val) {
					continue
				}
				some = true
				want := int64(0)
				if matched && i+1 < n {
					want = i + 1
				}
				got, ok := e.evalNum(idx, val)
				if !ok {
					return fmt.Sprintf("it is number %v of the list", idx)
				}
				if got != want {
					if matched {
						return fmt.Sprintf("after version number %d of %d comes number %d", i+1, n, got+1)
					}
					return fmt.Sprintf("a version that is not supported is followed by number %d of %d", got+1, n)
				}
			}
		}
		if !some {
			return "the search for the recorded version ends too early"
		}
		return ""
	}
	return "the recorded version is not looked for"
}

// preparedVersions: the registry's versions are the configured ones, highest first, without patch numbers.
func (c *Ctx) preparedVersions() {
	fn := c.root("peers", "", "NewRegistry")
	if fn == nil {
		return
	}
	paths, e := c.paths(fn)
	var src *Term
	for i, p := range fn.Params {
		if isVersions(p.Type()) {
			src = e.paramTerm(fn, i, p)
		}
	}
	for _, p := range paths {
		if p.Kind != "return" || e.errOutcome(p) == errYes {
			continue
		}
		var list *Term
		for k, v := range p.St.mem {
			if k.Op == "faddr" && k.Args[0] == unface(p.ret(0)) && isVersions(v.Typ) {
				list = strip(v)
			}
		}
		if r := p.ret(0); list == nil && r.Op == "struct" {
			for _, a := range r.Args {
				if isVersions(a.Typ) {
					list = strip(a)
				}
			}
		}
		if !c.check(list != nil, "prepared", fnName(c, fn), p.Pos, p, "the registry is created without versions") {
			continue
		}
		why := c.versionsOf(e, p, list, src)
		c.check(why == "", "prepared", fnName(c, fn), p.Pos, p, "the supported versions are prepared wrongly: %s", why)
	}
	c.atLeast("prepared", 1, "prepared lists of versions")
}

// versionSorted: a sort on the path puts the list into descending order.
func (c *Ctx) versionSorted(e *Engine, p *Path, list *Term) (bool, string) {
	for _, ev := range p.Events {
		if isCall(ev, "slices.Reverse") || ev.Kind != "call" || !isSort(ev.Fn) {
			continue
		}
		x := unface(ev.Args[0])
		rev := false
		for callName(strip(x)) == "sort.Reverse" {
			x = unface(strip(x).Args[0])
			rev = !rev
		}
		by := x
		x = strip(x)
		if x != list {
			continue
		}
		if rev || ev.Fn == "sort.Sort" || ev.Fn == "sort.Stable" {
			if !rev {
				return false, "the order is ascending"
			}
			T := by.Typ
			if by.Op == "iface" {
				T = by.Args[0].Typ
			}
			_ = T
			return true, ""
		}
		why := c.sortedBy(e, ev, []orderKey{
			{what: "version", big: true, is: func(t *Term) bool { return true }},
		})
		if why != "" {
			why = c.sortedBy(e, ev, []orderKey{
				{what: "major version", is: func(t *Term) bool { return callName(strip(t)) == "(proto.Version).Major" }},
				{what: "minor version", is: func(t *Term) bool { return callName(strip(t)) == "(proto.Version).Minor" }},
			})
		}
		return why == "", why
	}
	return false, "they are not sorted"
}

func (c *Ctx) versionsOf(e *Engine, p *Path, list, src *Term) string {
	ok, order := c.versionSorted(e, p, list)
	plain := func(t *Term, el func(x *Term) bool) bool {
		t = strip(t)
		if callName(t) != "proto.NewVersion" || callName(t.Args[0]) != "(proto.Version).Major" || callName(t.Args[1]) != "(proto.Version).Minor" {
			return false
		}
		n, isC := t.Args[2].int64()
		return isC && n == 0 && el(t.Args[0].Args[0]) && el(t.Args[1].Args[0])
	}
	if d := listDefOf(e, p, list); d != nil {
		it := e.tt.mk("iter", d.ev.Loop.ID, types.Typ[types.Int])
		var from *Term
		for _, b := range d.ev.Loop.Bodies {
			for _, f := range b.own() {
				if a := f.Atom; a.Op == "lt" && f.Val && a.Args[0] == it && a.Args[1].Op == "len" && isVersions(a.Args[1].Args[0].Typ) {
					from = a.Args[1].Args[0]
				}
			}
		}
		if from == nil || !exhausted(e, p, d.ev, from) {
			return "not every version is taken"
		}
		raw := len(d.elems) > 0
		for _, el := range d.elems {
			raw = raw && el != nil && isLoopElem(el, from, it)
		}
		if raw { // a copy, changed in place
			if why := c.plainInPlace(e, p, list, plain); !ok || why != "" {
				return cmp.Or(order, why)
			}
			if strip(from) != src {
				return c.copyOf(strip(from), src)
			}
			return ""
		}
		for _, el := range d.elems {
			if el == nil || !plain(el, func(x *Term) bool { return isLoopElem(x, from, it) }) {
				return fmt.Sprintf("an entry is %v", el)
			}
		}
		if !ok {
			ok, order = c.versionSorted(e, p, strip(from))
		}
		if !ok {
			return order
		}
		if strip(from) != src {
			return c.copyOf(strip(from), src)
		}
		return ""
	}
	if !ok {
		return order
	}
	if why := c.plainInPlace(e, p, list, plain); why != "" {
		return why
	}
	if list != src {
		return c.copyOf(list, src)
	}
	return ""
}

// plainInPlace: a loop over the list drops the patch number of every entry.
func (c *Ctx) plainInPlace(e *Engine, p *Path, list *Term, plain func(t *Term, el func(x *Term) bool) bool) string {
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		it := e.tt.mk("iter", ev.Loop.ID, types.Typ[types.Int])
		if !exhausted(e, p, ev, list) {
			continue
		}
		good := true
		for _, b := range ev.Loop.Bodies {
			n := 0
			for _, s := range b.Events {
				if s.Kind == "store" && s.Args[0].Op == "iaddr" && strip(s.Args[0].Args[0]) == list {
					n++
					if s.Args[0].Args[1] != it || !plain(s.Args[1], func(x *Term) bool {
						return x.contains(it)
					}) {
						good = false
					}
				}
			}
			good = good && n == 1
		}
		if good {
			return ""
		}
	}
	return "patch numbers are kept"
}

// copyOf: a list is a copy of the configured one.
func (c *Ctx) copyOf(list, src *Term) string {
	if list.Op == "sorted" {
		list = list.Args[0]
	}
	switch callName(list) {
	case "slices.Clone", "slices.Sorted":
		if strip(list.Args[0]) == src {
			return ""
		}
	}
	if list == src || list.contains(src) {
		return ""
	}
	return "they are not the configured ones"
}

// requestByVersion: a peer is asked for block IDs in the form its version understands.
func (c *Ctx) requestByVersion() {
	fn := c.root("peers", "Peer", "RequestBlockIDs")
	if fn == nil {
		return
	}
	paths, e := c.paths(fn)
	name := fnName(c, fn)
	ids := e.paramTerm(fn, 1, fn.Params[1])
	for _, p := range paths {
		if p.Kind != "return" {
			continue
		}
		old, fresh := true, true
		for _, v := range []int64{-1, 0, 1} {
			if !e.feasible(p.Facts, oldVersion(v)) {
				continue
			}
			if v < 0 {
				fresh = false
			} else {
				old = false
			}
		}
		n := 0
		for _, ev := range p.Events {
			if !isCallSuffix(ev, ".Peer).SendMessage") {
				continue
			}
			n++
			m := unface(ev.Vals[1])
			switch {
			case m.Typ != nil && isNamed(deref(m.Typ), "proto", "GetSignaturesMessage"):
				c.check(old, "form", name, ev.Pos, p, "signatures are requested from a peer that may have version 1.2 or later")
				why := c.idSignatures(e, p, structField(m, "Signatures"), ids)
				c.check(why == "", "form", name, ev.Pos, p, "wrong signatures are requested: %s", why)
			case m.Typ != nil && isNamed(deref(m.Typ), "proto", "GetBlockIdsMessage"):
				c.check(fresh, "form", name, ev.Pos, p, "block IDs are requested from a peer that may be older than version 1.2")
				c.check(structField(m, "Blocks") == ids, "form", name, ev.Pos, p, "the IDs requested are %v", structField(m, "Blocks"))
			default:
				c.check(false, "form", name, ev.Pos, p, "the request is %v", m)
			}
		}
		c.check(n == 1, "form", name, p.Pos, p, "%d requests are sent", n)
	}
	c.atLeast("form", 4, "requests")
	if fn := c.root("peers", "Peer", "RequestBlock"); fn != nil {
		paths, e := c.paths(fn)
		id := e.paramTerm(fn, 1, fn.Params[1])
		for _, p := range paths {
			n := 0
			for _, ev := range p.Events {
				if isCallSuffix(ev, ".Peer).SendMessage") {
					n++
					m := unface(ev.Vals[1])
					c.check(m.Typ != nil && isNamed(deref(m.Typ), "proto", "GetBlockMessage") && structField(m, "BlockID") == id, "form", fnName(c, fn), ev.Pos, p, "the block requested is %v", m)
				}
			}
			c.check(n == 1 || p.Kind != "return", "form", fnName(c, fn), p.Pos, p, "%d requests are sent", n)
		}
	}
}

// oldVersion is the valuation that the peer's version is below (-1), equal to or above version 1.2.
func oldVersion(k int64) valuation {
	is12 := func(t *Term) bool {
		t = strip(t)
		if callName(t) != "proto.NewVersion" {
			return false
		}
		a, _ := t.Args[0].int64()
		b, _ := t.Args[1].int64()
		p, ok := t.Args[2].int64()
		return a == 1 && b == 2 && ok && p == 0
	}
	return func(t *Term) (int64, bool) {
		if t.Op == "cmp" {
			switch {
			case is12(t.Args[1]) && endsWithField(t.Args[0], "Version"):
				return k, true
			case is12(t.Args[0]) && endsWithField(t.Args[1], "Version"):
				return -k, true
			}
		}
		return 0, false
	}
}

// idSignatures: the list holds the signature of every ID in order.
func (c *Ctx) idSignatures(e *Engine, p *Path, list, ids *Term) string {
	if list == nil {
		return "there are none"
	}
	d := listDefOf(e, p, list)
	if d == nil {
		return "the list is not built in a known way"
	}
	it := e.tt.mk("iter", d.ev.Loop.ID, types.Typ[types.Int])
	if !exhausted(e, p, d.ev, ids) {
		return "IDs are left out"
	}
	for _, el := range d.elems {
		if el == nil {
			return "an ID is left out"
		}
		if x := strip(el); callName(x) != "(proto.BlockID).Signature" || !isLoopElem(x.Args[0], ids, it) {
			return fmt.Sprintf("an entry is %v", el)
		}
	}
	return ""
}

// suggestedUsed: a connection is made or accepted with the version suggested for its peer.
func (c *Ctx) suggestedUsed() {
	n := 0
	for _, rt := range c.runtimeRoots("main") {
		paths, _ := c.runtimePaths(rt)
		name := fnName(c, rt.fn)
		walkPaths(paths, func(p *Path) {
			var sug *Event
			for _, ev := range p.Events {
				switch {
				case isCallSuffix(ev, ".VersionProvider).SuggestVersion", "Registry).SuggestVersion"):
					sug = ev
				case isCall(ev, "outgoing.EstablishConnection"):
					n++
					ok := sug != nil && sameRes(ev.Args[2], sug.Res)
					c.check(ok, "used", name, ev.Pos, p, "an outgoing connection uses version %v instead of the suggested one", ev.Args[2])
					if ok {
						b1, _ := addrBase(sug.Args[1])
						b2, _ := addrBase(structField(ev.Vals[1], "Address"))
						c.check(b1 == b2, "used", name, ev.Pos, p, "the version was suggested for another peer")
					}
				case isCall(ev, "incoming.RunIncomingPeer"):
					n++
					v := structField(ev.Vals[1], "Version")
					ok := sug != nil && sameRes(v, sug.Res)
					c.check(ok, "used", name, ev.Pos, p, "an incoming connection uses version %v instead of the suggested one", v)
					if ok {
						b1, _ := addrBase(sug.Args[1])
						conn := structField(ev.Vals[1], "Conn")
						c.check(callName(b1) == "(net.Conn).RemoteAddr" && b1.Args[0] == conn, "used", name, ev.Pos, p, "the version was suggested for another peer")
					}
				}
			}
		})
	}
	c.check(n >= 2, "used", "main", 0, nil, "connections are not made with suggested versions")
}

// connEvents: connections that were made are registered, connections that failed are closed and unregistered.
func (c *Ctx) connEvents() {
	reg, unreg := 0, 0
	for _, rt := range c.runtimeRoots("main") {
		paths, _ := c.runtimePaths(rt)
		name := fnName(c, rt.fn)
		walkPaths(paths, func(p *Path) {
			if p.Kind == "exit" {
				return
			}
			parsed := true
			for _, f := range p.own() {
				if a := f.Atom; a.Op == "eq" && a.Args[1].Op == "nil" && !f.Val && a.Args[0].Op == "ext" && callName(a.Args[0].Args[0]) == "netip.ParseAddrPort" {
					parsed = false
				}
			}
			if m := messageIs(p.own(), "peer.Connected"); m != nil && parsed {
				reg++
				n := 0
				for _, ev := range p.Events {
					if !isCall(ev, "(*peers.Registry).RegisterPeer") {
						continue
					}
					n++
					b, _ := addrBase(ev.Args[1])
					pr := ev.Args[2]
					c.check(fieldOfMessage(pr, m, "Peer"), "event", name, ev.Pos, p, "the connection registered is %v", pr)
					c.check(callName(b) == "(peer.Peer).RemoteAddr" && b.Args[0] == pr, "event", name, ev.Pos, p, "the connection is registered for %v", ev.Args[1])
					h := strip(ev.Args[3])
					c.check(callName(h) == "(peer.Peer).Handshake" && h.Args[0] == pr, "event", name, ev.Pos, p, "the connection is registered with the handshake %v", h)
				}
				c.check(n == 1, "event", name, p.Pos, p, "a new connection is registered %d times", n)
			}
			if m := messageIs(p.own(), "peer.InternalErr"); m != nil && parsed {
				unreg++
				n, cl := 0, 0
				for _, ev := range p.Events {
					if isCall(ev, "(*peers.Registry).UnregisterPeer") {
						b, _ := addrBase(ev.Args[1])
						if c.check(callName(b) == "(peer.Peer).RemoteAddr" && ofInfo(b.Args[0], m), "event", name, ev.Pos, p, "the connection unregistered is the one of %v", ev.Args[1]) {
							n++
						}
					}
					if isCallSuffix(ev, ".Peer).Close") && ofInfo(ev.Args[0], m) {
						cl++
					}
				}
				c.check(n >= 1, "event", name, p.Pos, p, "a failed connection is not unregistered")
				c.check(cl >= 1, "event", name, p.Pos, p, "a failed connection is not closed")
			}
		})
	}
	c.check(reg > 0, "event", "main", 0, nil, "new connections are not handled")
	c.check(unreg > 0, "event", "main", 0, nil, "failed connections are not handled")
}

// ofInfo: the peer of the message whose value is m.
func ofInfo(t, m *Term) bool {
	pb, mb := fieldBase2(t), fieldBase2(m)
	return pb != nil && pb == mb && endsWithField(t, "Peer")
}
