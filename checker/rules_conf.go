package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"net/netip"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Settings: what the detector requires of the command line, and where each setting goes.

func runC26(c *Ctx) {
	cf := &confCheck{Ctx: c, builtin: map[string]string{}, stored: map[string]*Term{}}
	cf.start()
	cf.handshakes()
	cf.listening()
	cf.stores()
	cf.bindings()
	cf.defaults()
	cf.accepting()
}

// accepting: what happens to one connection does not keep others from being accepted, and each is taken on.
func (cf *confCheck) accepting() {
	c := cf.Ctx
	for _, rt := range c.runtimeRoots("main") {
		paths, _ := c.runtimePaths(rt)
		name := fnName(c, rt.fn)
		c.takenOn(paths, name)
		levels(paths, func(p *Path) {
			for i, ev := range p.Events {
				if ev.Kind == "go" {
					c.takenOn(ev.Bodies, name)
					continue
				}
				if ev.Kind != "loop" || !accepts(ev) {
					continue
				}
				for _, b := range ev.Loop.Bodies {
					waits := callsOn(b, func(x *Event) bool { return isCall(x, "incoming.RunIncomingPeer") })
					c.check(len(waits) == 0, "accepting", name, ev.Loop.Pos, b, "no connection is accepted as long as another one lasts")
				}
				if p.Kind != "return" {
					continue
				}
				failed, stopped := false, len(stopFacts(p)) > 0
				for _, x := range p.Events[i+1:] {
					failed = failed || isBlockingCall(x)
					stopped = stopped || tookDone(x)
				}
				for _, f := range p.Facts {
					stopped = stopped || f.Val && f.Atom.Op == "errorsis" && strings.Contains(f.Atom.Args[1].String(), "ErrClosed")
				}
				c.check(!failed || stopped, "accepting", name, p.Pos, p, "no more connections are accepted after a failure")
			}
		})
	}
	c.atLeast("accepting", 2, "connections to accept")
}

func accepts(ev *Event) bool {
	for _, b := range ev.Loop.Bodies {
		for _, x := range b.Events {
			if isBlockingCall(x) {
				return true
			}
		}
	}
	return false
}

// takenOn: where a connection is taken on, it is on every path on which nothing failed.
func (c *Ctx) takenOn(paths []*Path, name string) {
	runs := func(p *Path) bool {
		return len(callsOn(p, func(x *Event) bool { return isCall(x, "incoming.RunIncomingPeer") })) > 0
	}
	some := false
	for _, p := range paths {
		some = some || runs(p)
	}
	if !some {
		return
	}
	for _, p := range paths {
		if p.Kind != "return" || runs(p) {
			continue
		}
		ok := len(stopFacts(p)) > 0
		for _, f := range p.Facts {
			ok = ok || errCheck(f.Atom) != nil && !f.Val
		}
		for _, x := range p.Events {
			ok = ok || tookDone(x)
		}
		c.check(ok, "accepting", name, p.Pos, p, "an accepted connection is not taken on although nothing failed")
	}
}

// defaults: what a setting is if it is not given is a valid setting.
func (cf *confCheck) defaults() {
	c := cf.Ctx
	valid := map[string]func(s string) bool{
		"blockchain-type": func(s string) bool {
			s = strings.ToLower(s)
			return s == "mainnet" || s == "testnet" || s == "stagenet"
		},
		"api": isAddrPort, "net": isAddrPort,
		"declared-address": func(s string) bool { return s == "" || isAddrPort(s) },
		"name":             func(s string) bool { return len(s) > 0 && len(s) < 256 },
		"peers": func(s string) bool {
			for _, x := range strings.Split(s, ",") {
				if s != "" && !isAddrPort(strings.TrimSpace(x)) {
					return false
				}
			}
			return true
		},
		"versions": func(s string) bool {
			for _, x := range strings.Split(s, ",") {
				parts := strings.Split(strings.TrimSpace(x), ".")
				if len(parts) > 3 {
					return false
				}
				for _, n := range parts {
					if _, err := strconv.ParseUint(n, 10, 32); err != nil {
						return false
					}
				}
			}
			return true
		},
	}
	for _, fn := range c.p.pkgFuncs("main") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := call.Common().StaticCallee()
				if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "flag" || f.Name() != "String" && f.Name() != "StringVar" {
					continue
				}
				a := call.Common().Args
				a = a[len(a)-3:]
				name, ok1 := constString(a[0])
				def, ok2 := constString(a[1])
				if ok1 && ok2 && valid[name] != nil {
					c.check(valid[name](def), "default", fnName(c, fn), call.Pos(), nil, "the setting %s is %q unless it is given, which is refused", name, def)
				}
			}
		}
	}
}

func isAddrPort(s string) bool {
	_, err := netip.ParseAddrPort(s)
	return err == nil
}

func constString(v ssa.Value) (string, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(k.Value), true
}

type confCheck struct {
	*Ctx
	builtin map[string]string // built-in address -> network
	stored  map[string]*Term  // values that the fields of the connection manager and of the listener get
}

// flagOf gives the name of the setting whose value a term is.
func flagOf(t *Term) string {
	a := loadAddr(t)
	if a == nil || callName(a) != "flag.String" || len(a.Args) < 1 {
		return ""
	}
	s, _ := a.Args[0].strVal()
	return s
}

// flagsIn lists the settings that a term depends on.
func flagsIn(t *Term) map[string]bool {
	r := map[string]bool{}
	t.any(func(x *Term) bool {
		if n := flagOf(x); n != "" {
			r[n] = true
		}
		return false
	})
	return r
}

// ext0 gives the call whose first result a term is.
func ext0(t *Term) *Term {
	if t != nil && t.Op == "ext" && t.Sym == "0" {
		return t.Args[0]
	}
	return nil
}

// text tells whether a term is the text of a setting or another form of it that means the same.
func (cf *confCheck) text(t *Term, flag string) bool {
	for t != nil {
		if flagOf(t) == flag {
			return true
		}
		switch callName(t) {
		case "path.Clean", "filepath.Clean", "strings.TrimSpace", "strings.Clone", "(netip.AddrPort).String":
			t = t.Args[0]
			continue
		}
		if x := ext0(t); x != nil {
			switch callName(x) {
			case "netip.ParseAddrPort", "filepath.Abs":
				t = x.Args[0]
				continue
			}
		}
		return false
	}
	return false
}

// parsedPort tells whether a term is the address and port that a setting spells.
func (cf *confCheck) parsedPort(t *Term, flag string) bool {
	x := ext0(t)
	return x != nil && callName(x) == "netip.ParseAddrPort" && cf.text(x.Args[0], flag)
}

// tcpAddr tells whether a term is the address and port that a setting spells, as the protocol has it.
func (cf *confCheck) tcpAddr(t *Term, flag string) bool {
	if callName(t) == "proto.NewTCPAddrFromString" {
		return cf.text(t.Args[0], flag)
	}
	if t.Op == "struct" && len(t.Args) == 2 || callName(t) == "proto.NewTCPAddr" {
		ip, port := strip(t.Args[0]), strip(t.Args[1])
		for ip.Op == "conv" || ip.Op == "narrow" || callName(ip) == "(net.IP).To16" || callName(ip) == "(netip.Addr).AsSlice" || callName(ip) == "(netip.Addr).Unmap" {
			ip = ip.Args[0]
		}
		for port.Op == "conv" || port.Op == "narrow" {
			port = port.Args[0]
		}
		return callName(ip) == "(netip.AddrPort).Addr" && cf.parsedPort(ip.Args[0], flag) &&
			callName(port) == "(netip.AddrPort).Port" && cf.parsedPort(port.Args[0], flag)
	}
	return false
}

// parses tells whether the facts decide that the text of a setting is an address and a port: 1 it is, -1 it is not.
func (cf *confCheck) parses(e *Engine, facts []Fact, flag string) int {
	for _, f := range facts {
		a := f.Atom
		x := errCheck(a)
		if x == nil || callName(x) != "netip.ParseAddrPort" || !cf.text(x.Args[0], flag) {
			continue
		}
		return sign(f.Val)
	}
	return 0
}

// errCheck gives the call of which a condition says that it did not fail.
func errCheck(a *Term) *Term {
	if a.Op != "eq" || len(a.Args) != 2 {
		return nil
	}
	x := a.Args[0]
	if x.Op == "nil" {
		x = a.Args[1]
	} else if a.Args[1].Op != "nil" {
		return nil
	}
	if x.Op == "ext" && x.Sym == "1" {
		return x.Args[0]
	}
	return nil
}

// start: the detector starts only with valid settings, does not refuse valid ones, and passes each to where it belongs.
func (cf *confCheck) start() {
	c := cf.Ctx
	n := 0
	for _, rt := range c.runtimeRoots("main") {
		paths, e := c.runtimePaths(rt)
		name := fnName(c, rt.fn)
		uses := false
		walk(paths, func(s site) {
			uses = uses || isCall(s.ev, "peers.NewRegistry", "chains.NewLinkage", "api.NewAPI")
		})
		if !uses {
			continue
		}
		for _, p := range paths {
			cf.parsedBeforeUse(e, p, name)
			first := -1
			for i, ev := range p.Events {
				if isCall(ev, "peers.NewRegistry", "chains.NewLinkage", "api.NewAPI", "loading.NewLoader") {
					first = i
					break
				}
			}
			if first < 0 {
				if p.Kind != "return" && p.Kind != "exit" {
					continue
				}
				code := int64(1)
				for _, ev := range p.Events {
					if isCall(ev, "os.Exit") {
						code, _ = ev.Args[0].int64()
						break
					}
				}
				if code == 0 || p.errResult() != nil && e.errOutcome(p) == errNo {
					c.bad("start", name, p.Pos, p, "the detector ends without an error and without having worked")
				} else {
					c.check(cf.refused(e, p), "refusal", name, p.Pos, p, "the detector refuses to start although nothing is wrong with the settings")
				}
				continue
			}
			n++
			facts := site{ev: p.Events[first], path: p}.facts()
			if why := cf.invalid(e, facts, p); why != "" {
				c.bad("valid", name, p.Events[first].Pos, p, "the detector starts although %s", why)
				continue
			}
			c.ok("valid")
			cf.roles(e, p, name)
			for i, ev := range p.Events {
				if !isCall(ev, "api.NewAPI") {
					continue
				}
				if er := errOf(e, ev); er != nil {
					c.check(e.knownNil(p.Facts, er) || e.knownNonNil(p.Facts, er) || handedOn(p, i, er), "set-up", name, ev.Pos, p, "nothing looks whether the API could be set up")
					if e.knownNonNil(p.Facts, er) {
						pos, used := usesResult(p, i, ev.Res, er)
						c.check(!used, "set-up", name, pos, p, "the detector goes on with an API that could not be set up")
					}
				}
			}
		}
	}
	c.atLeast("valid", n, "starts of the detector")
}

// parsedBeforeUse: a setting is not looked at before the command line is read.
func (cf *confCheck) parsedBeforeUse(e *Engine, p *Path, name string) {
	parsed := 1 << 30
	for _, ev := range p.Events {
		if isCall(ev, "flag.Parse") {
			parsed = ev.NFacts
			break
		}
	}
	for i, f := range p.Facts {
		if i >= parsed {
			break
		}
		if len(flagsIn(f.Atom)) > 0 {
			cf.bad("parse", name, p.Pos, p, "a setting is used before the command line is read: %v", f.Atom)
			return
		}
	}
	cf.ok("parse")
}

// invalid tells what may be wrong with the settings under the given facts.
func (cf *confCheck) invalid(e *Engine, facts []Fact, p *Path) string {
	folder, dir, known := false, false, false
	for _, f := range facts {
		a := f.Atom
		x := errCheck(a)
		switch {
		case f.Val && x != nil && (callName(x) == "os.Stat" || callName(x) == "os.Lstat") && cf.text(x.Args[0], "db"):
			folder = true
		case f.Val && strings.HasSuffix(callName(a), ".IsDir") && flagsIn(a)["db"]:
			dir = true
		case f.Val && x != nil && callName(x) == "settings.BlockchainSettingsByTypeName" && cf.text(x.Args[0], "blockchain-type"):
			known = true
		}
	}
	switch {
	case !folder:
		return "the database folder may not exist"
	case !dir:
		return "the database folder may be something else than a folder"
	case !known:
		return "the network may be unknown"
	case cf.parses(e, facts, "api") != 1:
		return "the address of the API may be invalid"
	case cf.parses(e, facts, "net") != 1:
		return "the network address to listen on may be invalid"
	}
	if lo, hi := cf.nameLen(e, facts); lo == nil || lo.Sign() < 1 || hi == nil || hi.Cmp(big.NewInt(255)) > 0 {
		return "the name may be empty or too long for a handshake"
	}
	return ""
}

// nameLen bounds the length of the name.
func (cf *confCheck) nameLen(e *Engine, facts []Fact) (lo, hi *big.Int) {
	for _, f := range facts {
		var l *Term
		f.Atom.any(func(x *Term) bool {
			if x.Op == "len" && flagOf(x.Args[0]) == "name" {
				l = x
			}
			return false
		})
		if l != nil {
			iv := e.interval(&State{mem: map[*Term]*Term{}, facts: facts}, l)
			lo = iv.lo
			if lo == nil || lo.Sign() < 0 {
				lo = big.NewInt(0)
			}
			if lo.Sign() == 0 && iv.excl["0"] {
				lo = big.NewInt(1)
			}
			return lo, iv.hi
		}
	}
	return nil, nil
}

// refused tells whether a path knows of something that is wrong with the settings.
func (cf *confCheck) refused(e *Engine, p *Path) bool {
	for _, f := range p.Facts {
		a := f.Atom
		if x := errCheck(a); x != nil && !f.Val && len(flagsIn(x)) == 1 {
			switch callName(x) {
			case "os.Stat", "settings.BlockchainSettingsByTypeName", "netip.ParseAddrPort", "proto.NewVersionFromString":
				if callName(x) == "netip.ParseAddrPort" && flagsIn(x)["declared-address"] {
					continue
				}
				return true
			}
		}
		switch {
		case !f.Val && strings.HasSuffix(callName(a), ".IsDir"):
			return true
		case f.Val && callName(a) == "os.IsNotExist":
			return true
		case a.Op == "eq" && f.Val && a.Args[0].Op == "len" && (flagOf(a.Args[0].Args[0]) == "db" || flagOf(a.Args[0].Args[0]) == "api" || flagOf(a.Args[0].Args[0]) == "net"):
			if k, ok := a.Args[1].int64(); ok && k == 0 {
				return true
			}
		}
	}
	if lo, hi := cf.nameLen(e, p.Facts); lo != nil && (hi != nil && hi.Sign() < 1 || lo.Cmp(big.NewInt(255)) > 0) {
		return true
	}
	// none of the known networks
	none := 0
	for _, f := range p.Facts {
		a := f.Atom
		if !f.Val && a.Op == "eq" && endsWithField(a.Args[0], "Type") && flagsIn(a)["blockchain-type"] {
			if k, ok := a.Args[1].int64(); ok && k >= 0 && k <= 2 {
				none++
			}
		}
	}
	return none >= 3
}

// roles: what the parts of the detector are made with.
func (cf *confCheck) roles(e *Engine, p *Path, name string) {
	c := cf.Ctx
	isByte := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	started := map[string]bool{}
	var seeded *Event
	for _, ev := range p.Events {
		if ev.Kind != "call" {
			continue
		}
		switch ev.Fn {
		case "peers.NewRegistry", "chains.NewLinkage", "api.NewAPI":
			started[ev.Fn] = true
			sig := ev.Call.Common().Signature()
			for i, a := range ev.Vals {
				if i >= sig.Params().Len() {
					break
				}
				T := sig.Params().At(i).Type()
				why := ""
				switch {
				case isByte(T):
					why = cf.isScheme(a)
				case isNamed(T, "proto", "TCPAddr"):
					why = cf.isAddress(e, p, a, "declared-address")
				case isNamed(T, "proto", "Block"):
					if !(fromSettings(a, "Genesis")) {
						why = fmt.Sprintf("the first block is %v", a)
					}
				case T.String() == "string":
					flag := "db"
					if ev.Fn == "api.NewAPI" {
						flag = "api"
					}
					if !cf.text(a, flag) {
						why = fmt.Sprintf("%v is given instead of the setting %q", a, flag)
					}
				case sliceOf(T, "Version"):
					why = cf.isVersions(e, p, a)
				default:
					continue
				}
				c.check(why == "", "role", name+" "+ev.Fn, ev.Pos, p, "%s", why)
			}
		case "(*peers.Registry).AppendAddresses":
			seeded = ev
			why := cf.isSeeds(e, p, ev.Args[1])
			c.check(why == "", "seeds", name, ev.Pos, p, "%s", why)
		case "loading.NewLoader":
			started[ev.Fn] = true
			if seeded == nil {
				c.bad("seeds", name, ev.Pos, p, "the detector works without having taken over the seed peers")
			}
		}
	}
	if started["loading.NewLoader"] {
		cf.connections(p)
	}
}

func sliceOf(T types.Type, elem string) bool {
	s, ok := T.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), "proto", elem)
}

// fromSettings tells whether a term is a field of the settings of the network that was asked for.
func fromSettings(t *Term, field string) bool {
	t = strip(t)
	if a := loadAddr(t); a != nil {
		t = a
	}
	if (t.Op != "faddr" && t.Op != "field") || t.Sym != field {
		return false
	}
	for t.Op == "faddr" || t.Op == "field" || t.Op == "load" {
		t = t.Args[0]
	}
	x := ext0(t)
	return x != nil && callName(x) == "settings.BlockchainSettingsByTypeName" && flagOf(x.Args[0]) == "blockchain-type"
}

func (cf *confCheck) isScheme(t *Term) string {
	if fromSettings(t, "AddressSchemeCharacter") {
		return ""
	}
	return fmt.Sprintf("the character of the network is %v", t)
}

// isAddress checks that a term is the address that a setting spells, or nothing if it does not spell one.
func (cf *confCheck) isAddress(e *Engine, p *Path, t *Term, flag string) string {
	if t.Op == "zero" {
		for _, f := range p.Facts {
			if x := errCheck(f.Atom); x != nil && !f.Val && callName(x) == "netip.ParseAddrPort" && cf.text(x.Args[0], flag) {
				return ""
			}
			if l, ok := stripLenEq(f); ok && flagOf(l) == flag {
				return ""
			}
		}
		return fmt.Sprintf("the setting %q is dropped", flag)
	}
	if cf.tcpAddr(t, flag) {
		return ""
	}
	return fmt.Sprintf("%v is given instead of the setting %q", t, flag)
}

// stripLenEq gives the text that a fact says is empty.
func stripLenEq(f Fact) (*Term, bool) {
	a := f.Atom
	if f.Val && a.Op == "eq" && a.Args[0].Op == "len" {
		if k, ok := a.Args[1].int64(); ok && k == 0 {
			return a.Args[0].Args[0], true
		}
	}
	return nil, false
}

// piece tells whether a term is the current part of a comma-separated setting.
func (cf *confCheck) piece(t *Term, flag string, iter *Term) (list *Term, ok bool) {
	for callName(t) == "strings.TrimSpace" {
		t = t.Args[0]
	}
	if t.Op == "load" {
		t = t.Args[0]
	}
	if (t.Op != "index" && t.Op != "iaddr") || t.Args[1] != iter {
		return nil, false
	}
	l := t.Args[0]
	if callName(l) != "strings.Split" || flagOf(l.Args[0]) != flag {
		return nil, false
	}
	if s, _ := l.Args[1].strVal(); s != "," {
		return nil, false
	}
	return l, true
}

// isVersions checks that a list holds every listed version.
func (cf *confCheck) isVersions(e *Engine, p *Path, list *Term) string {
	ev, elems, why := listOf(e, p, list)
	if ev == nil {
		return "the list of versions is unclear: " + why
	}
	it := e.tt.mk("iter", ev.Loop.ID, types.Typ[types.Int])
	for i, el := range elems {
		if el == nil {
			return "a listed version is left out"
		}
		x := ext0(el)
		if x == nil || callName(x) != "proto.NewVersionFromString" {
			return fmt.Sprintf("%v is taken for a version", el)
		}
		l, ok := cf.piece(x.Args[0], "versions", it)
		if !ok {
			return fmt.Sprintf("%v is taken for a version", x.Args[0])
		}
		if !runsOver(e, p, ev, l) {
			return "not all listed versions are taken over"
		}
		if i < len(ev.Loop.Bodies) && !e.knownNil(ev.Loop.Bodies[i].Facts, e.extErr(x, 1)) {
			return "a malformed version is accepted"
		}
	}
	if len(elems) == 0 {
		return "no version is taken over"
	}
	return ""
}

// isSeeds checks that a list holds the built-in addresses of the network and every listed one.
func (cf *confCheck) isSeeds(e *Engine, p *Path, list *Term) string {
	ev, ph := loopOfPhi(p, list)
	if ev == nil || ph.Init == nil {
		return fmt.Sprintf("the seed peers are %v", list)
	}
	if why := cf.builtinPeers(e, p, ph.Init); why != "" {
		return why
	}
	it := e.tt.mk("iter", ev.Loop.ID, types.Typ[types.Int])
	var split *Term
	for i, b := range ph.Backs {
		body := ev.Loop.Bodies[i]
		if b == list {
			empty := false
			for _, f := range body.Facts {
				if t, ok := stripLenEq(f); ok {
					if l, ok := cf.piece(t, "peers", it); ok {
						empty, split = true, l
					}
				}
			}
			if !empty {
				return "a listed peer is left out"
			}
			continue
		}
		if b.Op != "append" || len(b.Args) != 2 || b.Args[0] != list || callName(b.Args[1]) != "net.TCPAddrFromAddrPort" {
			return fmt.Sprintf("a listed peer becomes %v", b)
		}
		x := ext0(b.Args[1].Args[0])
		if x == nil || callName(x) != "netip.ParseAddrPort" {
			return fmt.Sprintf("a listed peer becomes %v", b)
		}
		l, ok := cf.piece(x.Args[0], "peers", it)
		if !ok {
			return fmt.Sprintf("a listed peer becomes %v", b)
		}
		if !e.knownNil(body.Facts, e.extErr(x, 1)) {
			return "a malformed peer is accepted"
		}
		split = l
	}
	if split == nil || !runsOver(e, p, ev, split) {
		return "not all listed peers are taken over"
	}
	return ""
}

// builtinPeers checks the built-in addresses: there are some, they are addresses, and no two networks share one.
func (cf *confCheck) builtinPeers(e *Engine, p *Path, init *Term) string {
	net := ""
	for _, f := range p.Facts {
		a := f.Atom
		if f.Val && a.Op == "eq" && endsWithField(a.Args[0], "Type") {
			net = a.Args[1].String()
		}
	}
	base := init
	if base.Op == "slice" {
		base = base.Args[0]
	}
	n := 0
	for a, v := range p.St.mem {
		if a.Op != "iaddr" || a.Args[0] != base {
			continue
		}
		n++
		if callName(v) != "net.TCPAddrFromAddrPort" || callName(v.Args[0]) != "netip.MustParseAddrPort" {
			return fmt.Sprintf("a built-in peer is %v", v)
		}
		s, ok := v.Args[0].Args[0].strVal()
		ap, err := netip.ParseAddrPort(s)
		if !ok || err != nil || ap.Port() == 0 || !ap.Addr().Is4() {
			return fmt.Sprintf("the built-in peer %q is no address to connect to", s)
		}
		if old, dup := cf.builtin[s]; dup && old != net {
			return fmt.Sprintf("the built-in peer %s belongs to two networks", s)
		}
		cf.builtin[s] = net
	}
	if n == 0 {
		return "there are no built-in peers"
	}
	return ""
}

// connections: what the connection manager and the listener are made with.
func (cf *confCheck) connections(p *Path) {
	for a, v := range fieldsOf(p, func(a, v *Term) bool { return true }) {
		T := deref(typOr(a.Args[0]))
		if isNamed(T, "main", "ConnectionManager") || isNamed(T, "main", "Listener") {
			k := typeKey(T) + "." + a.Sym
			if old := cf.stored[k]; old != nil && old != v && old.Op != "zero" {
				continue
			}
			cf.stored[k] = v
		}
	}
}

func typeKey(T types.Type) string {
	if n, ok := T.(*types.Named); ok {
		return n.Obj().Name()
	}
	return T.String()
}

// settingOf gives the value that was stored in the field that a term is read from.
func (cf *confCheck) settingOf(t *Term) *Term {
	t = strip(t)
	for t != nil && (t.Op == "conv" || t.Op == "narrow") {
		t = strip(t.Args[0])
	}
	a := loadAddr(t)
	if a == nil || a.Op != "faddr" {
		return nil
	}
	return cf.stored[typeKey(deref(typOr(a.Args[0])))+"."+a.Sym]
}

// handshakes: connections present the settings of the detector.
func (cf *confCheck) handshakes() {
	c := cf.Ctx
	n := 0
	for _, rt := range c.runtimeRoots("main") {
		paths, e := c.runtimePaths(rt)
		name := fnName(c, rt.fn)
		walk(paths, func(s site) {
			if !isCall(s.ev, "outgoing.EstablishConnection", "incoming.RunIncomingPeer") {
				return
			}
			n++
			ps := s.ev.Vals[1]
			say := func(ok bool, f string, a ...any) {
				c.check(ok, "handshake", name+" "+s.ev.Fn, s.ev.Pos, s.path, f, a...)
			}
			v := cf.settingOf(structField(ps, "WavesNetwork"))
			say(v != nil && networkName(e, v), "the network in the handshake is %v", v)
			v = cf.settingOf(structField(ps, "NodeName"))
			say(v != nil && flagOf(v) == "name", "the name in the handshake is %v", v)
			v = cf.settingOf(structField(ps, "DeclAddr"))
			say(v != nil && (v.Op == "zero" || cf.tcpAddr(v, "declared-address")), "the declared address in the handshake is %v", v)
			v = cf.settingOf(structField(ps, "NodeNonce"))
			say(v != nil && strings.Contains(callName(v), "rand."), "the number in the handshake is %v", v)
		})
	}
	c.atLeast("handshake", n, "connections")
	// the settings do not change afterwards
	for _, rt := range c.runtimeRoots("main") {
		paths, _ := c.runtimePaths(rt)
		walk(paths, func(s site) {
			if s.ev.Kind != "store" {
				return
			}
			a := s.ev.Args[0]
			if a.Op != "faddr" {
				return
			}
			k := typeKey(deref(typOr(a.Args[0]))) + "." + a.Sym
			if v, ok := cf.stored[k]; ok && (len(flagsIn(v)) > 0 || strings.Contains(callName(v), "rand.")) && rootOf(a).Op != "alloc" {
				c.bad("handshake", fnName(c, rt.fn), s.ev.Pos, s.path, "a setting is changed while the detector works: %v", a)
			}
		})
	}
}

// networkName tells whether a term is the name of the network: "waves" and its character.
func networkName(e *Engine, t *Term) bool {
	ps := textPieces(e, t)
	lit := ""
	for i, p := range ps {
		if s, ok := p.strVal(); ok {
			lit += s
			continue
		}
		return i == len(ps)-1 && lit == "waves" && fromSettings(p, "AddressSchemeCharacter")
	}
	return false
}

// textPieces splits a text into the constant texts and the characters that it is made of.
func textPieces(e *Engine, t *Term) []*Term {
	t = strip(t)
	switch {
	case callName(t) == "fmt.Sprintf":
		f, ok := t.Args[0].strVal()
		args := t.Args[1:]
		if len(args) == 1 && args[0].Op == "list" {
			args = args[0].Args
		}
		if !ok {
			return []*Term{t}
		}
		var r []*Term
		for f != "" {
			i := strings.IndexByte(f, '%')
			if i < 0 {
				i = len(f)
			}
			if i > 0 {
				r = append(r, e.tt.constant(constant.MakeString(f[:i]), types.Typ[types.String]))
			}
			if f = f[i:]; f == "" {
				break
			}
			if len(f) < 2 || len(args) == 0 || f[1] != 's' && f[1] != 'c' && f[1] != 'v' {
				return []*Term{t}
			}
			a := args[0]
			if a.Op == "iface" {
				a = a.Args[0]
			}
			if f[1] == 'c' {
				r = append(r, a)
			} else if b, ok := typOr(a).Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				return []*Term{t}
			} else {
				r = append(r, textPieces(e, a)...)
			}
			f, args = f[2:], args[1:]
		}
		return r
	case t.Op == "concat", t.Op == "bin" && t.Sym == "+":
		var r []*Term
		for _, a := range t.Args {
			r = append(r, textPieces(e, a)...)
		}
		return r
	case t.Op == "conv", t.Op == "cat" && len(t.Args) == 1, t.Op == "byte":
		return textPieces(e, t.Args[0])
	}
	return []*Term{t}
}

// listening: the detector listens where it is told to if it has an address to declare.
func (cf *confCheck) listening() {
	c := cf.Ctx
	isListen := func(ev *Event) bool {
		return isCall(ev, "(*net.ListenConfig).Listen", "(net.ListenConfig).Listen", "net.Listen", "net.ListenTCP")
	}
	fns := map[*ssa.Function]bool{}
	n := 0
	for _, rt := range c.runtimeRoots("main") {
		paths, _ := c.runtimePaths(rt)
		name := fnName(c, rt.fn)
		walk(paths, func(s site) {
			if !isListen(s.ev) {
				return
			}
			n++
			fns[rt.fn] = true
			a := s.ev.Vals[len(s.ev.Vals)-1]
			if callName(a) == "(proto.TCPAddr).String" {
				a = a.Args[0]
			}
			v := a
			if x := cf.settingOf(a); x != nil {
				v = x
			}
			c.check(cf.tcpAddr(v, "net") || cf.text(v, "net") || v.Op == "zero", "listening", name, s.ev.Pos, s.path, "the detector listens on %v", v)
		})
	}
	c.atLeast("listening", n, "places where the detector listens")
	for _, rt := range c.runtimeRoots("main") {
		paths, e := c.runtimePaths(rt)
		name := fnName(c, rt.fn)
		for _, p := range paths {
			works := false
			for _, ev := range p.Events {
				works = works || isCall(ev, "loading.NewLoader")
			}
			if !works {
				continue
			}
			k := 0
			walk([]*Path{p}, func(s site) {
				if isListen(s.ev) {
					k++
				} else if s.ev.Kind == "call" && s.ev.Call != nil {
					if f := s.ev.Call.Common().StaticCallee(); f != nil && fns[c.p.unwrap(f)] {
						k++
					}
				} else if s.ev.Kind == "go" {
					for _, b := range s.ev.Bodies {
						for _, x := range b.Events {
							for f := range fns {
								if x.Kind == "call" && x.Call == nil && x.Fn == fnName(c, f) {
									k++
								}
							}
						}
					}
				}
			})
			decl, bind := cf.emptyAddr(e, p, "declared-address"), cf.emptyAddr(e, p, "net")
			switch {
			case k > 1:
				c.bad("listening", name, p.Pos, p, "the detector listens more than once")
			case k == 1 && decl != -1:
				c.bad("listening", name, p.Pos, p, "the detector listens although it may have no address to declare")
			case k == 0 && decl != 1 && bind != 1:
				c.bad("listening", name, p.Pos, p, "the detector does not listen although it has an address to declare")
			default:
				c.ok("listening")
			}
		}
	}
}

// emptyAddr tells whether the address of a setting is known to be empty (1) or not to be (-1).
func (cf *confCheck) emptyAddr(e *Engine, p *Path, flag string) int {
	for _, f := range p.Facts {
		a := f.Atom
		if callName(a) == "(proto.TCPAddr).Empty" && (cf.tcpAddr(a.Args[0], flag) || a.Args[0].Op == "zero" && cf.isAddress(e, p, a.Args[0], flag) == "") {
			if a.Args[0].Op == "zero" && f.Val {
				return 1
			}
			return sign(f.Val)
		}
	}
	return 0
}

// stores: both stores are kept in places of their own inside the given folder, and made for the given network.
func (cf *confCheck) stores() {
	c := cf.Ctx
	place := map[string]string{}
	for _, k := range []struct{ pkg, fn string }{{"peers", "NewRegistry"}, {"chains", "NewLinkage"}} {
		fn := c.root(k.pkg, "", k.fn)
		if fn == nil {
			continue
		}
		paths, e := c.paths(fn)
		var folder, declared *Term
		for i, pa := range fn.Params {
			switch {
			case pa.Type().String() == "string":
				folder = e.paramTerm(fn, i, pa)
			case isNamed(pa.Type(), "proto", "TCPAddr"):
				declared = e.paramTerm(fn, i, pa)
			}
		}
		n := 0
		walk(paths, func(s site) {
			if !isCall(s.ev, "leveldb.OpenFile") {
				return
			}
			n++
			sub, ok := subFolder(s.ev.Args[0], folder)
			if c.check(ok, "store", k.pkg, s.ev.Pos, s.path, "the store is kept at %v", s.ev.Args[0]) {
				place[k.pkg] = sub
			}
		})
		c.atLeast("store", n, "stores opened by "+k.pkg+"."+k.fn)
		if declared == nil {
			continue
		}
		for _, p := range paths {
			if p.Kind != "return" || e.errOutcome(p) == errYes {
				continue
			}
			for _, v := range fieldsOf(p, func(a, v *Term) bool {
				return isNamed(deref(typOr(a.Args[0])), "peers", "Registry") && v.Typ != nil && isNamed(v.Typ, "netip", "Addr")
			}) {
				empty := 0
				for _, f := range p.Facts {
					if callName(f.Atom) == "(proto.TCPAddr).Empty" && f.Atom.Args[0] == declared {
						empty = sign(f.Val)
					}
				}
				ok := false
				if callName(v) == "(netip.AddrPort).Addr" {
					x := ext0(v.Args[0])
					ok = x != nil && callName(x) == "netip.ParseAddrPort" && callName(x.Args[0]) == "(proto.TCPAddr).String" && x.Args[0].Args[0] == declared
					ok = ok || v.Args[0].Op == "zero" && empty == 1
				}
				ok = ok || v.Op == "zero" && empty == 1
				c.check(ok, "declared", k.pkg, p.Pos, p, "the detector takes %v for its own address", v)
			}
		}
	}
	if a, b := place["peers"], place["chains"]; a != "" && b != "" {
		c.check(a != b, "store", "peers and chains", 0, nil, "both stores are kept in %q", a)
	}
}

// subFolder gives the name of the folder inside base that a term denotes.
func subFolder(t, base *Term) (string, bool) {
	for callName(t) == "filepath.Clean" || callName(t) == "path.Clean" {
		t = t.Args[0]
	}
	if callName(t) != "filepath.Join" && callName(t) != "path.Join" {
		return "", false
	}
	args := t.Args
	if len(args) == 1 && args[0].Op == "list" {
		args = args[0].Args
	}
	if len(args) != 2 || args[0] != base {
		return "", false
	}
	s, ok := args[1].strVal()
	return s, ok && s != "" && s != "." && !strings.ContainsAny(s, "/\\") && s != ".."
}

// bindings: the API is served at the given address.
func (cf *confCheck) bindings() {
	c := cf.Ctx
	fn := c.root("api", "", "NewAPI")
	if fn == nil {
		return
	}
	paths, e := c.paths(fn)
	var bind *Term
	for i, pa := range fn.Params {
		if pa.Type().String() == "string" {
			bind = e.paramTerm(fn, i, pa)
		}
	}
	n := 0
	for _, p := range paths {
		if p.Kind != "return" || e.errOutcome(p) == errYes {
			continue
		}
		for _, v := range fieldsOf(p, func(a, v *Term) bool {
			return a.Sym == "Addr" && isNamed(deref(typOr(a.Args[0])), "http", "Server")
		}) {
			n++
			c.check(v == bind, "api", fnName(c, fn), p.Pos, p, "the API is served at %v", v)
		}
	}
	c.atLeast("api", n, "API servers")
}
