package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The peers registry: what is recorded about peers, who may be connected, dialled and told about.

// CBOR tags of a peer record.
const (
	tagPort = iota
	tagNonce
	tagName
	tagVersion
	tagState
	tagNextAttempt
	tagScore
)

func (c *Ctx) peerState(name string) int64 {
	if s := c.p.ssa["peers"]; s != nil {
		if k, ok := s.Pkg.Scope().Lookup(name).(*types.Const); ok {
			if n, ok := constant.Int64Val(k.Val()); ok {
				return n
			}
		}
	}
	c.bad("anchor", "peers."+name, token.NoPos, nil, "the peer state %s does not exist", name)
	return -1
}

func (c *Ctx) registryRoots() []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range c.p.methods("peers", "Registry", true) {
		r = append(r, fn)
	}
	if fn := c.root("peers", "", "NewRegistry"); fn != nil {
		r = append(r, fn)
	}
	return r
}

// peerKey gives the address a record key is made of.
func peerKey(k *Term) *Term {
	k = strip(k)
	if k == nil {
		return nil
	}
	if k.Op == "slice" {
		lo, ok1 := k.Args[1].int64()
		hi, ok2 := k.Args[2].int64()
		if k.Args[1].Op == "nil" {
			lo, ok1 = 0, true
		}
		if !ok1 || !ok2 || lo != 0 || hi != 4 {
			return nil
		}
		k = strip(k.Args[0])
	}
	if k.Op == "ext" && k.Sym == "0" && callName(k.Args[0]) == "(netip.Addr).MarshalBinary" {
		return k.Args[0].Args[0]
	}
	if k.Op == "arr" {
		k = k.Args[0]
	}
	switch callName(k) {
	case "(netip.Addr).AsSlice", "(netip.Addr).As4":
		return k.Args[0]
	}
	return nil
}

// peerRecord recognises a record read from the store and gives the address it belongs to.
func peerRecord(t *Term) *Term {
	t = strip(t)
	if t == nil || t.Op != "decoded" {
		return nil
	}
	return peerKey(getOf(t.Args[0]))
}

// storedField recognises a field of the stored record of a peer.
func storedField(t *Term, tag int) *Term {
	rec, n, ok := fieldTag(strip(t))
	if !ok || n != tag {
		return nil
	}
	return peerRecord(rec)
}

// storedVersion recognises the version parsed from the stored record of a peer.
func storedVersion(t *Term) *Term {
	t = strip(t)
	if t != nil && t.Op == "ext" && t.Sym == "0" && callName(t.Args[0]) == "proto.NewVersionFromString" {
		return storedField(t.Args[0].Args[0], tagVersion)
	}
	return nil
}

// peerAbsent: the facts say that nothing is stored for the address.
func peerAbsent(facts []Fact, addr *Term) bool {
	for _, f := range facts {
		a := f.Atom
		if f.Val && a.Op == "errorsis" && isGlobalLoad(a.Args[1], "leveldb.ErrNotFound") && a.Args[0].Op == "ext" {
			if g := a.Args[0].Args[0]; g.Op == "get" && peerKey(g.Args[1]) == addr {
				return true
			}
		}
		if !f.Val && a.Op == "ext" && a.Sym == "0" && a.Args[0].Op == "hasKey" && peerKey(a.Args[0].Args[1]) == addr {
			return true
		}
		// addresses that are never stored
		if !f.Val && callName(a) == "(netip.Addr).Is4" && a.Args[0] == addr {
			return true
		}
	}
	return false
}

// peerPresent: the record of the address was read.
func peerPresent(e *Engine, facts []Fact, addr *Term) bool {
	for _, f := range facts {
		a := f.Atom
		if f.Val && a.Op == "eq" && a.Args[1].Op == "nil" && a.Args[0].Op == "ext" && a.Args[0].Sym == "1" {
			if g := a.Args[0].Args[0]; g.Op == "get" && peerKey(g.Args[1]) == addr {
				return true
			}
		}
		if f.Val && a.Op == "ext" && a.Sym == "0" && a.Args[0].Op == "hasKey" && peerKey(a.Args[0].Args[1]) == addr {
			return true
		}
	}
	return false
}

// storedStates lists the states (0..3) the stored record of the address can have under the facts.
func storedStates(e *Engine, facts []Fact, addr *Term) map[int64]bool {
	r := map[int64]bool{}
	for k := int64(0); k <= 3; k++ {
		if e.feasible(facts, func(t *Term) (int64, bool) {
			if storedField(t, tagState) == addr && t.Op != "conv" {
				return k, true
			}
			return 0, false
		}) {
			r[k] = true
		}
	}
	return r
}

// notHostile: the peer is known not to be recorded as hostile.
func (c *Ctx) notHostile(e *Engine, facts []Fact, addr *Term) bool {
	return peerAbsent(facts, addr) || peerPresent(e, facts, addr) && !storedStates(e, facts, addr)[c.peerState("PeerHostile")]
}

// peerOp is one modification of the peer records.
type peerOp struct {
	s    site
	op   dbOp
	addr *Term
	val  *Term
}

func (o peerOp) facts() []Fact { return o.s.facts() }

// peerOps lists the modifications of peer records made on the paths.
func peerOps(paths []*Path) []peerOp {
	var r []peerOp
	for _, top := range paths {
		at := map[*Path]map[*Term][]dbOp{}
		walkPath(top, nil, nil, top, func(s site) {
			ev := s.ev
			m := at[s.path]
			if m == nil {
				m = map[*Term][]dbOp{}
				at[s.path] = m
			}
			add := func(o dbOp) {
				r = append(r, peerOp{s: s, op: o, addr: peerKey(o.key), val: marshalled(o.val)})
			}
			switch {
			case isCall(ev, "(*leveldb.Batch).Put"):
				m[ev.Args[0]] = append(m[ev.Args[0]], dbOp{key: ev.Args[1], val: ev.Args[2], ev: ev})
			case isCall(ev, "(*leveldb.Batch).Delete"):
				m[ev.Args[0]] = append(m[ev.Args[0]], dbOp{del: true, key: ev.Args[1], ev: ev})
			case isCall(ev, "(*leveldb.Batch).Reset"):
				delete(m, ev.Args[0])
			case isCall(ev, "(*leveldb.DB).Put"):
				add(dbOp{key: ev.Args[1], val: ev.Args[2], ev: ev})
			case isCall(ev, "(*leveldb.DB).Delete"):
				add(dbOp{del: true, key: ev.Args[1], ev: ev})
			case isCall(ev, "(*leveldb.DB).Write"):
				seen := map[*Path]bool{}
				for q, mm := range at {
					if (q == s.path || q == top) && !seen[q] {
						seen[q] = true
						for _, o := range mm[ev.Args[1]] {
							add(o)
						}
						delete(mm, ev.Args[1])
					}
				}
			}
		})
	}
	return r
}

// tables of the registry, told apart by what they hold.
func isConnTable(t *Term) bool {
	return tableElem(t, func(T types.Type) bool { return isNamed(T, "peer", "Peer") })
}
func isPendTable(t *Term) bool {
	return tableElem(t, func(T types.Type) bool {
		switch u := T.Underlying().(type) {
		case *types.Struct:
			return u.NumFields() == 0
		case *types.Basic:
			return u.Info()&types.IsBoolean != 0
		}
		return false
	})
}

func tableElem(t *Term, f func(types.Type) bool) bool {
	if t == nil || t.Typ == nil || !(t.Op == "load" && t.Args[0].Op == "faddr" || t.Op == "field") {
		return false
	}
	m, ok := t.Typ.Underlying().(*types.Map)
	return ok && isNamed(m.Key(), "netip", "Addr") && f(m.Elem())
}

// peerWriteRules: every modification of the records goes through an analysed operation and is a whole record.
func (c *Ctx) peerAnchors() {
	for _, fn := range c.registryRoots() {
		c.paths(fn)
	}
	c.onlyReachable("peers", c.registryRoots(), []string{"(*leveldb.DB).Write", "(*leveldb.DB).Put", "(*leveldb.DB).Delete"})
}

// ---- C09: hostile peers ----

func runC09(c *Ctx) {
	c.peerAnchors()
	hostile := c.peerState("PeerHostile")
	for _, fn := range c.registryRoots() {
		paths, e := c.paths(fn)
		name := fnName(c, fn)
		for _, o := range peerOps(paths) {
			if !c.check(!o.op.del, "kept", name, o.s.ev.Pos, o.s.path, "a peer record is deleted, with it the mark of a hostile peer") {
				continue
			}
			if !c.check(o.addr != nil && o.val != nil, "record", name, o.s.ev.Pos, o.s.path, "a peer record is written in an unknown form (key %v)", o.op.key) {
				continue
			}
			st := tagged(o.val, tagState)
			ok := false
			if n, isC := st.int64(); isC && n == hostile {
				ok = true
			}
			ok = ok || storedField(st, tagState) == o.addr || c.notHostile(e, o.facts(), o.addr)
			c.check(ok, "stays-hostile", name, o.s.ev.Pos, o.s.path, "the record of peer %v is given state %v although the peer may be recorded as hostile", o.addr, st)
		}
		walk(paths, func(s site) {
			if s.ev.Kind == "mapset" && isConnTable(s.ev.Args[0]) {
				c.check(c.notHostile(e, s.facts(), s.ev.Args[1]), "not-connected", name, s.ev.Pos, s.path, "a connection of peer %v is kept although the peer may be recorded as hostile", s.ev.Args[1])
			}
		})
	}
	c.atLeast("stays-hostile", 6, "writes of peer records")
	c.atLeast("not-connected", 1, "connections kept")
	c.hostileMarks()
	c.hostileNotDialled()
}

// hostileNotDialled: a hostile peer is given no version to connect with and is not in the lists of peers to dial.
func (c *Ctx) hostileNotDialled() {
	hostile := c.peerState("PeerHostile")
	if fn := c.root("peers", "Registry", "SuggestVersion"); fn != nil {
		paths, e := c.paths(fn)
		addr := e.paramTerm(fn, 1, fn.Params[1])
		for _, p := range paths {
			if p.Kind != "return" || e.errOutcome(p) == errYes {
				continue
			}
			c.check(c.notHostile(e, p.Facts, addr), "no-version", fnName(c, fn), p.Pos, p, "a version is suggested for connecting to a peer that may be recorded as hostile")
		}
		c.atLeast("no-version", 3, "suggested versions")
	}
	if fn := c.root("peers", "Registry", "TakeAvailableAddresses"); fn != nil {
		c.filtered(fn, 0, "not-dialled", func(e *Engine, list, it *Term, facts []Fact) bool {
			for k := int64(0); k <= 3; k++ {
				if k == hostile && elemStateFeasible(e, facts, list, it, k) {
					return false
				}
			}
			return true
		}, "an address is given out for dialling although its peer may be recorded as hostile")
	}
}

// elemStateFeasible: the facts allow the element of the list of peers to have the given state.
func elemStateFeasible(e *Engine, facts []Fact, list, it *Term, k int64) bool {
	return e.feasible(facts, func(t *Term) (int64, bool) {
		if l, i, f, ok := elemField(t); ok && t.Op != "conv" && l == list && i == it && f == "State" {
			return k, true
		}
		return 0, false
	})
}

// filtered checks a condition wherever an element is put into the returned list.
func (c *Ctx) filtered(fn *ssa.Function, res int, rule string, cond func(e *Engine, list, it *Term, facts []Fact) bool, msg string) {
	paths, e := c.paths(fn)
	n := 0
	for _, p := range paths {
		if p.Kind != "return" || e.errOutcome(p) == errYes {
			continue
		}
		list := p.ret(res)
		if emptyList(list) {
			continue
		}
		d := listDefOf(e, p, list)
		if !c.check(d != nil, rule, fnName(c, fn), p.Pos, p, "the list that is returned is not built in a known way") {
			continue
		}
		it := e.tt.mk("iter", d.ev.Loop.ID, types.Typ[types.Int])
		for i, b := range d.ev.Loop.Bodies {
			if d.elems[i] == nil {
				continue
			}
			src := recordSource(d.elems[i])
			n++
			c.check(src != nil && cond(e, src, it, b.Facts), rule, fnName(c, fn), d.ev.Pos, b, "%s", msg)
		}
	}
	c.check(n > 0, rule, fnName(c, fn), fn.Pos(), nil, "nothing is ever put into the list")
}

// recordSource gives the list whose element a value is taken from.
func recordSource(t *Term) *Term {
	if l, _, _, ok := elemField(t); ok {
		return l
	}
	t = strip(t)
	if t != nil && t.Op == "load" {
		t = t.Args[0]
	}
	if t != nil && (t.Op == "index" || t.Op == "iaddr") {
		return t.Args[0]
	}
	return nil
}

// hostileMarks: a peer that is refused for its version or network is recorded as hostile (or the failure is reported).
func (c *Ctx) hostileMarks() {
	fn := c.root("peers", "Registry", "RegisterPeer")
	if fn == nil {
		return
	}
	hostile := c.peerState("PeerHostile")
	paths, e := c.paths(fn)
	r := c.registration(e, fn)
	for _, p := range paths {
		if p.Kind != "return" {
			continue
		}
		bad := r.foreign(p.Facts)
		if bad == "" {
			for _, o := range peerOps([]*Path{p}) {
				if n, ok := tagged(o.val, tagState).int64(); ok && n == hostile {
					c.check(false, "marked", fnName(c, fn), o.s.ev.Pos, p, "a peer is recorded as hostile although it speaks a close enough version of the right network")
				}
			}
			continue
		}
		ok := e.errOutcome(p) == errYes
		for _, o := range peerOps([]*Path{p}) {
			n, isC := tagged(o.val, tagState).int64()
			if o.addr == r.addr && isC && n == hostile && (ok || e.okIfSuccess(p, dbWrite{ev: o.s.ev})) {
				ok = true
				ver := strip(tagged(o.val, tagVersion))
				c.check(callName(ver) == "(proto.Version).String" && r.handshake(ver.Args[0], "Version"), "marked", fnName(c, fn), o.s.ev.Pos, p, "the version recorded of a hostile peer is %v", ver)
				nm := tagged(o.val, tagName)
				c.check(nm != nil && nm.any(func(t *Term) bool { return r.handshake(t, "NodeName") }), "marked", fnName(c, fn), o.s.ev.Pos, p, "the name recorded of a hostile peer is %v", nm)
			}
		}
		c.check(ok, "marked", fnName(c, fn), p.Pos, p, "a peer with %s is not recorded as hostile", bad)
	}
	c.atLeast("marked", 2, "refusals of foreign peers")
	c.markedByHand(hostile)
}

// markedByHand: the operation that marks an address as hostile does so, or reports why not.
func (c *Ctx) markedByHand(hostile int64) {
	fn := c.p.fn("peers", "Registry", "MarkAsHostile")
	if fn == nil || fn.Blocks == nil {
		return
	}
	paths, e := c.paths(fn)
	for _, p := range paths {
		if p.Kind != "return" || e.errOutcome(p) == errYes {
			continue
		}
		ok := false
		for _, o := range peerOps([]*Path{p}) {
			n, isC := tagged(o.val, tagState).int64()
			from := o.addr != nil && o.addr.any(func(t *Term) bool {
				return t.Op == "param" && isNamed(t.Typ, "net", "Addr") || t.Op == "param" && isNamed(t.Typ, "netip", "Addr")
			})
			ok = ok || isC && n == hostile && from && e.okIfSuccess(p, dbWrite{ev: o.s.ev})
		}
		c.check(ok, "marked", fnName(c, fn), p.Pos, p, "the peer is not recorded as hostile and no error tells so")
	}
}

// registration describes the parameters of the registration of a connection.
type registration struct {
	e            *Engine
	addr, np, hs *Term
}

func (c *Ctx) registration(e *Engine, fn *ssa.Function) *registration {
	r := &registration{e: e}
	for i, p := range fn.Params {
		t := e.paramTerm(fn, i, p)
		switch {
		case isNamed(p.Type(), "netip", "Addr"):
			r.addr = t
		case isNamed(p.Type(), "peer", "Peer"):
			r.np = t
		case isNamed(p.Type(), "proto", "Handshake"):
			r.hs = t
		}
	}
	return r
}

// handshake recognises a field of the handshake of the peer being registered.
func (r *registration) handshake(t *Term, f string) bool {
	t = strip(t)
	if t == nil || !endsWithField(t, f) {
		return false
	}
	b := fieldBase(t)
	return b == r.hs || callName(b) == "(peer.Peer).Handshake" && b.Args[0] == r.np ||
		b.Op == "faddr" && rootOf(b) == r.hs
}

// foreign tells why a peer must be recorded as hostile under the facts ("" if it must not).
func (r *registration) foreign(facts []Fact) string {
	e := r.e
	ver := false
	for _, k := range []int64{0, 1, 2} {
		ok := e.feasible(facts, r.minorDiff(k))
		if k < 2 && ok {
			ver = false
			break
		}
		if k == 2 && ok {
			ver = true
		}
	}
	if ver {
		return "a version too far away"
	}
	for _, f := range facts {
		a := f.Atom
		if r.appScheme(a) && !f.Val {
			return "an application of another network"
		}
		if a.Op != "eq" {
			if a.Op == "lt" { // len(app) < 1, 0 < len(app)
				if n, ok := a.Args[1].int64(); ok && n == 1 && r.appLen(a.Args[0]) && f.Val {
					return "an empty application name"
				}
				if n, ok := a.Args[0].int64(); ok && n == 0 && r.appLen(a.Args[1]) && !f.Val {
					return "an empty application name"
				}
			}
			continue
		}
		if n, ok := a.Args[1].int64(); ok && n == 0 && r.appLen(a.Args[0]) && f.Val {
			return "an empty application name"
		}
		if s, ok := a.Args[1].strVal(); ok && s == "" && r.handshake(a.Args[0], "AppName") && f.Val {
			return "an empty application name"
		}
	}
	return ""
}

func (r *registration) appLen(t *Term) bool {
	return t.Op == "len" && r.handshake(t.Args[0], "AppName")
}

// appScheme recognises the comparison of the last byte of the application name with the network's scheme.
func (r *registration) appScheme(a *Term) bool {
	if callName(a) == "strings.HasSuffix" && r.handshake(a.Args[0], "AppName") {
		x := a.Args[1]
		for x.Op == "conv" || x.Op == "cat" && len(x.Args) == 1 || x.Op == "byte" {
			x = x.Args[0]
		}
		x = strip(x)
		return x.Op == "load" && isRecvField(x)
	}
	if a.Op != "eq" {
		return false
	}
	for i := 0; i < 2; i++ {
		x, y := strip(a.Args[i]), strip(a.Args[1-i])
		if x != nil && x.Op == "index" && r.handshake(x.Args[0], "AppName") && y != nil && (y.Op == "load" || y.Op == "field") && isRecvField(y) {
			if ix := x.Args[1]; ix.Op == "bin" && ix.Sym == "+" && r.appLen(ix.Args[0]) {
				if n, ok := ix.Args[1].int64(); ok && n == -1 {
					return true
				}
			}
		}
	}
	return false
}

func isRecvField(t *Term) bool {
	if t.Op == "load" {
		t = t.Args[0]
	}
	return len(t.Args) > 0 && (t.Op == "faddr" || t.Op == "field") && t.Args[0].Op == "param"
}

// minorDiff is the valuation that the version of the peer and the recorded one differ by k minor versions.
func (r *registration) minorDiff(k int64) valuation {
	return func(t *Term) (int64, bool) {
		if callName(t) != "(proto.Version).CmpMinor" {
			return 0, false
		}
		x, y := t.Args[0], t.Args[1]
		if r.handshake(y, "Version") {
			x, y = y, x
		}
		if !r.handshake(x, "Version") {
			return 0, false
		}
		if storedVersion(y) == r.addr || y.Op == "zero" || peerAbsentVersion(y) {
			return k, true
		}
		return 0, false
	}
}

// peerAbsentVersion: the version of a peer nothing is recorded about.
func peerAbsentVersion(t *Term) bool {
	t = strip(t)
	return t != nil && t.Op == "struct" && len(t.Args) > 0 && func() bool {
		for _, a := range t.Args {
			if n, ok := a.int64(); !ok || n != 0 {
				return false
			}
		}
		return true
	}()
}

// ---- C10: connections ----

// declared tells what is known about the address a peer declares: empty, and the parsed address.
func (r *registration) declared(facts []Fact) (empty int, ap *Term) {
	for _, f := range facts {
		a := f.Atom
		if strings.HasSuffix(callName(a), "TCPAddr).Empty") && r.declTerm(a.Args[0]) {
			empty = sign(f.Val)
		}
		if a.Op == "eq" && a.Args[1].Op == "nil" && f.Val && a.Args[0].Op == "ext" && a.Args[0].Sym == "1" &&
			callName(a.Args[0].Args[0]) == "netip.ParseAddrPort" && r.declString(a.Args[0].Args[0].Args[0]) {
			ap = a.Args[0].Args[0]
		}
	}
	return
}

func (r *registration) declTerm(t *Term) bool {
	t = strip(t)
	if t == nil {
		return false
	}
	if t.Op == "faddr" && t.Sym == "DeclaredAddr" {
		return true
	}
	return r.handshake(t, "DeclaredAddr")
}

func (r *registration) declString(t *Term) bool {
	return strings.HasSuffix(callName(t), "TCPAddr).String") && r.declTerm(t.Args[0])
}

// vetted tells which precondition of a connection is not established by the facts, and which one is known to be violated.
func (c *Ctx) vetted(r *registration, facts []Fact) (doubt, reason string) {
	e := r.e
	is4, self := 0, 0
	app, scheme := false, false
	loop, v4 := 0, 0
	empty, ap := r.declared(facts)
	for _, f := range facts {
		a := f.Atom
		switch {
		case callName(a) == "(netip.Addr).Is4":
			if a.Args[0] == r.addr {
				is4 = sign(f.Val)
			}
			if x := addrOfAP(a.Args[0]); x != nil && ap != nil && x == e.tt.mk("ext", "0", x.Typ, ap) {
				v4 = sign(f.Val)
			}
		case callName(a) == "(netip.Addr).IsLoopback":
			if x := addrOfAP(a.Args[0]); x != nil && ap != nil && x == e.tt.mk("ext", "0", x.Typ, ap) {
				loop = sign(f.Val)
			}
		case a.Op == "eq" && isSelf(a, r.addr):
			self = sign(f.Val)
		case r.appScheme(a):
			scheme = f.Val
		}
	}
	app = !e.feasible(facts, func(t *Term) (int64, bool) {
		if r.appLen(t) {
			return 0, true
		}
		if t.Op == "eq" && r.handshake(t.Args[0], "AppName") {
			if s, ok := t.Args[1].strVal(); ok && s == "" {
				return 1, true
			}
		}
		return 0, false
	})
	for _, f := range facts {
		if f.Val && callName(f.Atom) == "strings.HasSuffix" && r.appScheme(f.Atom) {
			app = true
		}
	}
	switch {
	case is4 == -1:
		reason = "its address is not an IPv4 address"
	case self == 1:
		reason = "it is the detector itself"
	case c.hostileKnown(e, facts, r.addr):
		reason = "it is recorded as hostile"
	case r.foreign(facts) != "":
		reason = r.foreign(facts)
	case r.malformed(facts):
		reason = "its declared address is malformed"
	case loop == 1:
		reason = "its declared address is a loopback address"
	case v4 == -1:
		reason = "its declared address is not an IPv4 address"
	}
	switch {
	case is4 != 1:
		return "its address may not be an IPv4 address", reason
	case self != -1:
		return "it may be the detector itself", reason
	case !c.notHostile(e, facts, r.addr):
		return "it may be recorded as hostile", reason
	case e.feasible(facts, r.minorDiff(2)):
		return "its version may be two or more minor versions away", reason
	case !app || !scheme:
		return "it may belong to another network", reason
	case empty != 1 && ap == nil:
		return "its declared address may be malformed", reason
	case empty != 1 && loop != -1:
		return "its declared address may be a loopback address", reason
	case empty != 1 && v4 != 1:
		return "its declared address may not be an IPv4 address", reason
	}
	return "", reason
}

// hostileKnown: the peer is known to be recorded as hostile.
func (c *Ctx) hostileKnown(e *Engine, facts []Fact, addr *Term) bool {
	if peerAbsent(facts, addr) || !peerPresent(e, facts, addr) {
		return false
	}
	st := storedStates(e, facts, addr)
	for k := range st {
		if k != c.peerState("PeerHostile") {
			return false
		}
	}
	return len(st) > 0
}

// malformed: the address the peer declares is known not to be an address.
func (r *registration) malformed(facts []Fact) bool {
	for _, f := range facts {
		a := f.Atom
		if a.Op == "eq" && a.Args[1].Op == "nil" && !f.Val && a.Args[0].Op == "ext" && a.Args[0].Sym == "1" &&
			callName(a.Args[0].Args[0]) == "netip.ParseAddrPort" && r.declString(a.Args[0].Args[0].Args[0]) {
			return true
		}
	}
	return false
}

func addrOfAP(t *Term) *Term {
	if callName(t) == "(netip.AddrPort).Addr" {
		return t.Args[0]
	}
	return nil
}

// isSelf recognises the comparison of an address with the detector's own.
func isSelf(a, addr *Term) bool {
	if a.Op != "eq" {
		return false
	}
	for i := 0; i < 2; i++ {
		y := a.Args[1-i]
		if a.Args[i] == addr && isRecvField(y) && isNamed(y.Typ, "netip", "Addr") {
			return true
		}
	}
	return false
}

func runC10(c *Ctx) {
	c.peerAnchors()
	connected := c.peerState("PeerConnected")
	for _, fn := range c.registryRoots() {
		paths, e := c.paths(fn)
		name := fnName(c, fn)
		walk(paths, func(s site) {
			switch {
			case s.ev.Kind == "mapset" && isConnTable(s.ev.Args[0]):
				r := c.registration(e, fn)
				if !c.check(r.addr != nil && r.np != nil, "connect", name, s.ev.Pos, s.path, "a connection is kept by an operation that does not register one") {
					return
				}
				c.check(s.ev.Args[1] == r.addr && s.ev.Args[2] == r.np, "connect", name, s.ev.Pos, s.path, "the connection kept for %v is %v instead of the one being registered", s.ev.Args[1], s.ev.Args[2])
				why, _ := c.vetted(r, s.facts())
				c.check(why == "", "vetted", name, s.ev.Pos, s.path, "a peer is connected although %s", why)
			case s.ev.Kind == "mapdel" && isConnTable(s.ev.Args[0]):
				if s.ev.Fn == "clear" {
					c.check(false, "disconnect", name, s.ev.Pos, s.path, "all connections are forgotten")
					return
				}
				c.check(fn.Name() == "UnregisterPeer" && s.ev.Args[1] == e.paramTerm(fn, 1, fn.Params[1]), "disconnect", name, s.ev.Pos, s.path, "the connection of %v is forgotten although the peer did not disconnect", s.ev.Args[1])
			case s.ev.Kind == "store":
				if f, own := recvField(fn, s.ev.Args[0]); own && f != "" && s.ev.Args[0].Op == "faddr" && isConnMap(s.ev.Args[0]) {
					c.check(false, "disconnect", name, s.ev.Pos, s.path, "the table of connections is replaced")
				}
			}
		})
	}
	c.atLeast("vetted", 1, "registered connections")
	if fn := c.root("peers", "Registry", "RegisterPeer"); fn != nil {
		paths, e := c.paths(fn)
		r := c.registration(e, fn)
		name := fnName(c, fn)
		if !c.check(r.addr != nil && r.np != nil && r.hs != nil, "connect", name, fn.Pos(), nil, "the parameters of the registration are not known") {
			return
		}
		okPaths := 0
		for _, p := range paths {
			if p.Kind != "return" {
				continue
			}
			closed, kept, freed := 0, false, false
			var keptAt *Event
			for _, ev := range p.Events {
				switch {
				case isCallSuffix(ev, ").Close") && unface(ev.Args[0]) == r.np:
					closed++
				case ev.Kind == "mapset" && isConnTable(ev.Args[0]):
					kept, keptAt = true, ev
				case ev.Kind == "mapdel" && isPendTable(ev.Args[0]) && ev.Args[1] == r.addr:
					freed = true
				}
			}
			c.check(freed, "pending", name, p.Pos, p, "the address stays reserved for dialling after the connection was handled")
			if kept {
				okPaths++
				c.check(closed == 0, "refused-closed", name, p.Pos, p, "a connection that is kept gets closed")
				c.check(e.errOutcome(p) == errNo, "refused-closed", name, p.Pos, p, "an error is reported although the connection is kept")
				c.connRecord(e, p, r, keptAt, connected, name)
				continue
			}
			c.check(closed >= 1, "refused-closed", name, p.Pos, p, "a connection that is refused is left open")
			if e.errOutcome(p) != errYes {
				c.check(r.foreign(p.Facts) != "", "refused-closed", name, p.Pos, p, "a connection is refused without an error")
			}
			// nobody else is refused
			_, why := c.vetted(r, p.Facts)
			storeErr := false
			for _, f := range p.Facts {
				if f.Atom.Op == "eq" && f.Atom.Args[1].Op == "nil" && !f.Val && dbErr(f.Atom.Args[0]) || !f.Val && callName(f.Atom) == "utf8.ValidString" {
					storeErr = true
				}
			}
			c.check(why != "" || storeErr, "refused-why", name, p.Pos, p, "a peer is refused that may meet every condition")
		}
		c.check(okPaths > 0, "connect", name, fn.Pos(), nil, "no peer is ever connected")
	}
	if fn := c.root("peers", "Registry", "UnregisterPeer"); fn != nil {
		c.unregister(fn)
	}
	c.connList()
	c.connEvents()
}

// dbErr: an error that comes from the store or from encoding.
func dbErr(t *Term) bool {
	n := callName(t)
	if strings.HasPrefix(n, "(*leveldb.") || n == "cbor.Unmarshal" {
		return true
	}
	if t.Op == "ext" {
		x := t.Args[0]
		n := callName(x)
		return x.Op == "get" || x.Op == "snap" || x.Op == "hasKey" || strings.HasPrefix(n, "(*leveldb.") || n == "cbor.Marshal" || n == "proto.NewVersionFromString"
	}
	return t.Op == "cbor" || strings.Contains(t.String(), "cbor.Unmarshal")
}

func isConnMap(t *Term) bool {
	T := t.Typ
	if T == nil {
		return false
	}
	m, ok := deref(T).Underlying().(*types.Map)
	return ok && isNamed(m.Elem(), "peer", "Peer")
}

// connRecord: the record of a connected peer was stored before the connection is kept, with what the peer said.
func (c *Ctx) connRecord(e *Engine, p *Path, r *registration, keptAt *Event, connected int64, name string) {
	var ok bool
	for _, o := range peerOps([]*Path{p}) {
		if o.addr != r.addr {
			c.check(false, "conn-record", name, o.s.ev.Pos, p, "the record of another peer is changed")
			continue
		}
		if n, isC := tagged(o.val, tagState).int64(); !isC || n != connected {
			continue
		}
		if !e.knownNil(p.Facts[:min(keptAt.NFacts, len(p.Facts))], o.s.ev.Res) {
			continue
		}
		ok = true
		v := o.val
		c.check(r.handshake(tagged(v, tagName), "NodeName"), "conn-record", name, o.s.ev.Pos, p, "the recorded name is %v", tagged(v, tagName))
		c.check(r.handshake(tagged(v, tagNonce), "NodeNonce"), "conn-record", name, o.s.ev.Pos, p, "the recorded nonce is %v", tagged(v, tagNonce))
		ver := strip(tagged(v, tagVersion))
		c.check(callName(ver) == "(proto.Version).String" && r.handshake(ver.Args[0], "Version"), "conn-record", name, o.s.ev.Pos, p, "the recorded version is %v", ver)
		// port: the declared one if the declared address is the peer's own
		empty, ap := r.declared(p.Facts)
		same := 0
		if ap != nil {
			for _, f := range p.Facts {
				a := f.Atom
				if a.Op != "eq" {
					continue
				}
				for i := 0; i < 2; i++ {
					if x := addrOfAP(a.Args[i]); x != nil && x.Op == "ext" && x.Args[0] == ap && a.Args[1-i] == r.addr {
						same = sign(f.Val)
					}
				}
			}
		}
		port := strip(tagged(v, tagPort))
		n, isC := port.int64()
		switch {
		case empty == 1 || same == -1:
			c.check(isC && n == 0, "conn-record", name, o.s.ev.Pos, p, "port %v is recorded for a peer that did not declare its own address", port)
		case same == 1:
			c.check(callName(port) == "(netip.AddrPort).Port" && port.Args[0].Op == "ext" && port.Args[0].Args[0] == ap, "conn-record", name, o.s.ev.Pos, p, "port %v is recorded instead of the declared one", port)
		default:
			c.check(false, "conn-record", name, o.s.ev.Pos, p, "port %v is recorded although it is not known whether the peer declared its own address", port)
		}
		sc := tagged(v, tagScore)
		c.check(storedField(sc, tagScore) == r.addr || peerAbsent(p.Facts, r.addr), "conn-record", name, o.s.ev.Pos, p, "the recorded score %v of the peer is lost", sc)
	}
	c.check(ok, "conn-record", name, keptAt.Pos, p, "a connection is kept although the peer was not recorded as connected before")
}

// unregister: whatever happens, the connection and the reservation are forgotten; the record only gets a later attempt.
func (c *Ctx) unregister(fn *ssa.Function) {
	paths, e := c.paths(fn)
	name := fnName(c, fn)
	addr := e.paramTerm(fn, 1, fn.Params[1])
	for _, p := range paths {
		if p.Kind != "return" {
			continue
		}
		conn, pend := false, false
		for _, ev := range p.Events {
			if ev.Kind == "mapdel" && ev.Args[1] == addr {
				conn = conn || isConnTable(ev.Args[0])
				pend = pend || isPendTable(ev.Args[0])
			}
		}
		c.check(conn, "disconnect", name, p.Pos, p, "a disconnected peer stays in the table of connections")
		c.check(pend, "pending", name, p.Pos, p, "the address of a disconnected peer stays reserved")
		for _, o := range peerOps([]*Path{p}) {
			if !c.check(o.addr == addr && o.val != nil, "disconnect-record", name, o.s.ev.Pos, p, "the record of another peer is changed") {
				continue
			}
			for _, tag := range []int{tagPort, tagNonce, tagName, tagVersion, tagState, tagScore} {
				c.check(carried(o.val, tag, addr), "disconnect-record", name, o.s.ev.Pos, p, "field %d of the record is changed to %v on disconnection", tag, tagged(o.val, tag))
			}
			c.check(c.delayed(tagged(o.val, tagNextAttempt)), "disconnect-record", name, o.s.ev.Pos, p, "the next attempt is set to %v", tagged(o.val, tagNextAttempt))
		}
	}
	c.atLeast("disconnect-record", 7, "records of disconnected peers")
}

// carried: the field is taken over from the stored record.
func carried(v *Term, tag int, addr *Term) bool {
	x := tagged(v, tag)
	if tag == tagVersion {
		x = strip(x)
		return callName(x) == "(proto.Version).String" && storedVersion(x.Args[0]) == addr || storedField(x, tag) == addr
	}
	if tag == tagPort {
		x = strip(x)
		if callName(x) == "(netip.AddrPort).Port" && callName(x.Args[0]) == "netip.AddrPortFrom" {
			x = x.Args[0].Args[1]
		}
	}
	return storedField(x, tag) == addr
}

// delayed recognises a time at least ten minutes from now.
func (c *Ctx) delayed(t *Term) bool {
	t = strip(t)
	for callName(t) == "(time.Time).Round" || callName(t) == "(time.Time).Truncate" || callName(t) == "(time.Time).UTC" {
		t = strip(t.Args[0])
	}
	if callName(t) != "(time.Time).Add" || callName(strip(t.Args[0])) != "time.Now" {
		return false
	}
	n, ok := t.Args[1].int64()
	return ok && n == 600*1000*1000*1000
}

// connList: the list of connections has one entry per connection: the record of its peer with the connection.
func (c *Ctx) connList() {
	fn := c.root("peers", "Registry", "Connections")
	if fn == nil {
		return
	}
	paths, e := c.paths(fn)
	name := fnName(c, fn)
	for _, p := range paths {
		if p.Kind != "return" || e.errOutcome(p) == errYes {
			continue
		}
		why := c.connListOf(e, p, p.ret(0))
		c.check(why == "", "conn-list", name, p.Pos, p, "the list of connections is wrong: %s", why)
	}
	c.atLeast("conn-list", 1, "lists of connections")
}

func (c *Ctx) connListOf(e *Engine, p *Path, list *Term) string {
	if list.Op == "sorted" {
		list = list.Args[0]
	}
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		var m, key, val *Term
		for _, b := range ev.Loop.Bodies {
			for _, f := range b.own() {
				if f.Atom.Op == "more" && f.Val && isConnTable(f.Atom.Args[0].Args[0]) {
					m = f.Atom.Args[0].Args[0]
					key, val = e.tt.mk("mapkey", f.Atom.Sym, nil, m), e.tt.mk("mapval", f.Atom.Sym, nil, m)
				}
			}
		}
		if m == nil {
			continue
		}
		if !exhausted(e, p, ev, m) {
			return "not every connection is listed"
		}
		d := listDefOf(e, p, list)
		if d == nil || d.ev != ev {
			return "it is not made of the connections"
		}
		for _, el := range d.elems {
			if el == nil {
				return "a connection can be left out"
			}
			if el.Op != "struct" {
				return fmt.Sprintf("an entry is %v", el)
			}
			ap := structField(el, "AddressPort")
			if callName(ap) != "netip.AddrPortFrom" || ap.Args[0] != key || storedField(ap.Args[1], tagPort) != key {
				return fmt.Sprintf("the address of an entry is %v", ap)
			}
			for f, tag := range map[string]int{"Nonce": tagNonce, "Name": tagName, "State": tagState, "NextAttempt": tagNextAttempt, "Score": tagScore} {
				if storedField(structField(el, f), tag) != key {
					return fmt.Sprintf("the %s of an entry is %v", f, structField(el, f))
				}
			}
			if storedVersion(structField(el, "Version")) != key {
				return fmt.Sprintf("the version of an entry is %v", structField(el, "Version"))
			}
			if x := el.Args[len(el.Args)-1]; x != val {
				return fmt.Sprintf("an entry is listed with the connection %v", x)
			}
		}
		return ""
	}
	return "the connections are not looked at"
}

func phiOf(ev *Event, t *Term) *LoopPhi {
	for _, ph := range ev.Loop.Phis {
		if ph.Term == t {
			return ph
		}
	}
	return nil
}
