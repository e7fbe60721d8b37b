package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The HTTP interface: which handler serves which route, what it answers with, which status an error gets.

// ---- lists built by loops ----

// listDef describes a list built by one loop: the element added by every round (nil: none).
type listDef struct {
	ev    *Event
	elems []*Term
}

func listDefOf(e *Engine, p *Path, list *Term) *listDef {
	ev, elems, _ := listOf(e, p, list)
	if ev == nil {
		return nil
	}
	return &listDef{ev: ev, elems: elems}
}

// whole recognises list[idx] as a value.
func whole(t, list, idx *Term) bool {
	if t == nil {
		return false
	}
	if t.Op == "load" {
		t = t.Args[0]
	}
	return (t.Op == "index" || t.Op == "iaddr") && t.Args[0] == list && t.Args[1] == idx
}

// ---- routes ----

type route struct {
	path string
	fn   *ssa.Function
	pos  *Event
}

func (c *Ctx) routes() []route {
	fn := c.root("api", "", "NewAPI")
	if fn == nil {
		return nil
	}
	paths, e := c.paths(fn)
	var r []route
	for _, p := range paths {
		if p.Kind != "return" || e.errOutcome(p) == errYes {
			continue
		}
		prefix := map[*Term]string{}
		for _, ev := range p.Events {
			if isCallSuffix(ev, ").Mount") && len(ev.Args) == 3 {
				if s, ok := ev.Args[1].strVal(); ok {
					prefix[unface(ev.Args[2])] = s
				}
			}
		}
		r = nil
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			i := strings.LastIndex(ev.Fn, ").")
			if i < 0 || !strings.Contains(ev.Fn, "chi.") || len(ev.Args) < 3 {
				continue
			}
			switch m := ev.Fn[i+2:]; m {
			case "Get", "Post", "Put", "Delete", "Patch", "HandleFunc", "Handle", "Method", "MethodFunc", "Head", "Options":
				pat, ok := ev.Args[1].strVal()
				if !ok {
					c.check(false, "route", fnName(c, fn), ev.Pos, p, "a route with a pattern that is not constant is served")
					continue
				}
				f, _ := e.resolve(unface(ev.Args[len(ev.Args)-1]))
				r = append(r, route{m + " " + prefix[unface(ev.Args[0])] + pat, f, ev})
			}
		}
	}
	return r
}

// served: the server of the API works with the router that has the routes.
func (c *Ctx) served(p *Path, name string) {
	var top *Term
	for _, ev := range p.Events {
		if isCallSuffix(ev, ").Mount") && len(ev.Args) == 3 {
			top = unface(ev.Args[0])
		}
	}
	srv := fieldsOf(p, func(a, v *Term) bool { return isNamed(deref(typOr(a.Args[0])), "http", "Server") })
	if top == nil || len(srv) == 0 {
		return
	}
	for _, fn := range c.p.pkgFuncs("api") {
		if fn.Name() == "NewAPI" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && isNamed(deref(fa.X.Type()), "http", "Server") && deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() == "Handler" {
					return // It is set somewhere else.
				}
			}
		}
	}
	ok := false
	for a, v := range srv {
		ok = ok || a.Sym == "Handler" && v.any(func(t *Term) bool { return t == top })
	}
	c.check(ok, "route", name, p.Pos, p, "the server does not work with the router that has the routes")
}

// handler is an analysed route handler.
type handler struct {
	rt     route
	paths  []*Path
	e      *Engine
	w, req *Term
}

func (c *Ctx) handler(rt route) *handler {
	fn := c.p.unwrap(rt.fn)
	if fn == nil || fn.Blocks == nil {
		return nil
	}
	ps, e := c.runtimePaths(rtRoot{fn, "api"})
	n := len(fn.Params)
	if n < 2 {
		return nil
	}
	return &handler{rt, ps, e, e.paramTerm(fn, n-2, fn.Params[n-2]), e.paramTerm(fn, n-1, fn.Params[n-1])}
}

// response is something a handler sends: a JSON payload or an error with its status.
type response struct {
	ev      *Event
	payload *Term // nil for errors
	status  int64
	err     *Term // outcome of sending
}

func (h *handler) responses(p *Path) (r []response, odd *Event) {
	status := int64(200)
	for _, ev := range p.Events {
		if ev.Kind == "loop" {
			for _, b := range ev.Loop.Bodies {
				if x, o := h.responses(b); len(x) > 0 || o != nil {
					return r, ev
				}
			}
			continue
		}
		if ev.Kind == "go" || ev.Kind != "call" {
			continue
		}
		switch {
		case isCall(ev, "http.Error"):
			n, ok := ev.Args[2].int64()
			if !ok || unface(ev.Args[0]) != h.w {
				return r, ev
			}
			r = append(r, response{ev: ev, status: n})
		case isCall(ev, "(*json.Encoder).Encode"):
			enc := ev.Args[0]
			if callName(enc) != "json.NewEncoder" || unface(enc.Args[0]) != h.w {
				continue
			}
			r = append(r, response{ev: ev, payload: unface(ev.Args[1]), status: status, err: ev.Res})
		case isCallSuffix(ev, ").Write") && unface(ev.Args[0]) == h.w:
			x := strip(ev.Args[1])
			if x.Op == "ext" && x.Sym == "0" && (callName(x.Args[0]) == "json.Marshal" || callName(x.Args[0]) == "json.MarshalIndent") {
				er := ev.Res
				if er != nil {
					er = nil
				}
				r = append(r, response{ev: ev, payload: unface(x.Args[0].Args[0]), status: status, err: er})
				continue
			}
			return r, ev
		case isCallSuffix(ev, ").WriteHeader") && unface(ev.Args[0]) == h.w:
			if n, ok := ev.Args[1].int64(); ok {
				status = n
			}
		}
	}
	return r, nil
}

func runC25(c *Ctx) {
	rts := c.routes()
	want := map[string]func(h *handler, p *Path, payload *Term) string{
		"Get /api/peers/all":                          c.payloadCall("(*peers.Registry).Peers"),
		"Get /api/peers/friendly":                     c.payloadCall("(*peers.Registry).FriendlyPeers"),
		"Get /api/connections":                        c.payloadCall("(*peers.Registry).Connections"),
		"Get /api/heads":                              c.payloadHeads,
		"Get /api/leashes":                            c.payloadLeashes,
		"Get /api/status":                             c.payloadStatus,
		"Get /api/forks":                              c.payloadForks,
		"Get /api/active-forks":                       c.payloadActive,
		"Get /api/fork/{address}":                     c.payloadFork,
		"Get /api/fork/{address}/generators/{blocks}": c.payloadGenerators,
	}
	have := map[string]bool{}
	for _, rt := range rts {
		spec := want[rt.path]
		if spec == nil {
			c.note("route %s is not described by the property", rt.path)
			continue
		}
		have[rt.path] = true
		h := c.handler(rt)
		if !c.check(h != nil, "route", rt.path, rt.pos.Pos, nil, "the handler of %s cannot be found", rt.path) {
			continue
		}
		answered := 0
		for _, p := range h.paths {
			if p.Kind != "return" {
				continue
			}
			name := rt.path
			rs, odd := h.responses(p)
			if odd != nil {
				c.check(false, "one-response", name, odd.Pos, p, "an answer of an unknown kind is sent")
				continue
			}
			if !c.check(len(rs) > 0, "one-response", name, p.Pos, p, "a request gets no answer") {
				continue
			}
			r := rs[0]
			if len(rs) > 1 {
				okTwo := len(rs) == 2 && r.payload != nil && r.err != nil && h.e.knownNonNil(p.Facts, r.err) && rs[1].payload == nil && rs[1].status == 500
				c.check(okTwo, "one-response", name, rs[1].ev.Pos, p, "a request gets two answers")
			} else if r.payload != nil && r.err != nil {
				c.ok("one-response")
			}
			facts := p.Facts[:min(r.ev.NFacts, len(p.Facts))]
			wantStatus, cause := h.expected(p, facts, r.ev)
			if r.payload == nil {
				c.check(wantStatus != 200, "status", name, r.ev.Pos, p, "a request that was served is answered with status %d", r.status)
				if wantStatus != 200 {
					c.check(r.status == wantStatus, "status", name+" "+cause, r.ev.Pos, p, "%s is answered with status %d instead of %d", cause, r.status, wantStatus)
				}
				continue
			}
			answered++
			c.check(wantStatus == 200, "status", name+" "+cause, r.ev.Pos, p, "%s is answered as a success", cause)
			c.check(r.status == 200, "status", name, r.ev.Pos, p, "a successful answer has status %d", r.status)
			why := spec(h, p, r.payload)
			c.check(why == "", "payload", name, r.ev.Pos, p, "the answer %v is wrong: %s", r.payload, why)
		}
		c.check(answered > 0, "payload", rt.path, rt.fn.Pos(), nil, "no request is ever answered with data")
	}
	for k := range want {
		c.check(have[k], "route", k, 0, nil, "the route %s is not served", k)
	}
	c.middleware()
	if fn := c.root("api", "", "NewAPI"); fn != nil {
		paths, e := c.paths(fn)
		for _, p := range paths {
			if p.Kind == "return" && e.errOutcome(p) != errYes {
				c.served(p, fnName(c, fn))
			}
		}
	}
}

// middleware: what stands between the router and the handlers hands every request on, once.
func (c *Ctx) middleware() {
	for _, fn := range c.p.pkgFuncs("api") {
		if s := fn.Signature; s.Params().Len() == 1 && s.Results().Len() == 1 && isNamed(s.Params().At(0).Type(), "http", "Handler") && isNamed(s.Results().At(0).Type(), "http", "Handler") && fn.Blocks != nil {
			c.check(len(*fn.Params[len(fn.Params)-1].Referrers()) > 0, "handed-on", fnName(c, fn), fn.Pos(), nil, "no request is handed on to the handlers")
		}
		next := -1
		for i, v := range fn.FreeVars {
			if isNamed(deref(v.Type()), "http", "Handler") {
				next = i
			}
		}
		n := len(fn.Params)
		if next < 0 || fn.Blocks == nil || n < 2 || !isNamed(fn.Params[n-2].Type(), "http", "ResponseWriter") || !isNamed(fn.Params[n-1].Type(), "http", "Request") {
			continue
		}
		paths, e := c.runtimePaths(rtRoot{fn, "api"})
		w, req := e.paramTerm(fn, n-2, fn.Params[n-2]), e.paramTerm(fn, n-1, fn.Params[n-1])
		for _, p := range paths {
			if p.Kind != "return" {
				continue
			}
			var on []*Event
			levels([]*Path{p}, func(q *Path) {
				on = append(on, callsOn(q, func(ev *Event) bool { return isCallSuffix(ev, ").ServeHTTP") || ev.Fn == "http.HandlerFunc" })...)
			})
			name := fnName(c, fn)
			if !c.check(len(on) == 1, "handed-on", name, fn.Pos(), p, "a request is handed on %d times", len(on)) {
				continue
			}
			a := on[0].Args
			has := func(t, x *Term) bool { return t.any(func(y *Term) bool { return same(y, x) }) }
			c.check(len(a) == 3 && has(a[1], w) && has(a[2], req), "handed-on", name, on[0].Pos, p, "what is handed on is not the request with the way to answer it")
		}
	}
}

// expected gives the status a request must be answered with under the facts at the answer, and why.
func (h *handler) expected(p *Path, facts []Fact, at *Event) (int64, string) {
	e := h.e
	// an error of a store or registry call
	st, cause := int64(200), ""
	var scan func(evs []*Event, facts []Fact)
	scan = func(evs []*Event, facts []Fact) {
		for _, ev := range evs {
			if ev == at {
				return
			}
			if ev.Kind != "call" || ev.Res == nil {
				continue
			}
			if strings.HasPrefix(ev.Fn, "(*chains.Linkage).") || strings.HasPrefix(ev.Fn, "(*peers.Registry).") {
				m := ev.Fn[strings.LastIndex(ev.Fn, ".")+1:]
				er := errOf(e, ev)
				if er != nil && !e.knownNil(facts, er) {
					st, cause = 500, "a failure of "+m
					continue
				}
				if m == "HasLeash" {
					if v, ok := e.known(facts, e.tt.mk("ext", "0", types.Typ[types.Bool], ev.Res)); !ok || !v {
						st, cause = 404, "a request about a peer without a leash"
					}
				}
			}
		}
	}
	for _, ev := range p.Events {
		if ev == at {
			break
		}
		if ev.Kind == "loop" {
			for _, b := range ev.Loop.Bodies {
				scan(b.Events, b.Facts)
			}
		}
	}
	scan(p.Events, facts)
	// malformed parameters
	for _, f := range facts {
		a := f.Atom
		if a.Op == "eq" && a.Args[1].Op == "nil" && !f.Val && a.Args[0].Op == "ext" && a.Args[0].Sym == "1" {
			switch n := callName(a.Args[0].Args[0]); n {
			case "netip.ParseAddr":
				return 400, "a malformed address"
			case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
				return 400, "a malformed number"
			}
		}
		if a.Op == "lt" && f.Val && isParsedNum(a.Args[0]) {
			if n, ok := a.Args[1].int64(); ok && n == 0 {
				return 400, "a negative number"
			}
		}
		if a.Op == "lt" && !f.Val && isParsedNum(a.Args[1]) {
			if n, ok := a.Args[0].int64(); ok && n == -1 {
				return 400, "a negative number"
			}
		}
	}
	// what is asked of the stores is asked for parameters that were found to be well-formed
	for _, ev := range p.Events {
		if ev == at {
			break
		}
		if ev.Kind != "call" || !strings.HasPrefix(ev.Fn, "(*chains.Linkage).") && !strings.HasPrefix(ev.Fn, "(*peers.Registry).") {
			continue
		}
		for _, x := range ev.Args {
			bad := ""
			x.any(func(y *Term) bool {
				if y.Op != "ext" || y.Sym != "0" {
					return false
				}
				switch callName(y.Args[0]) {
				case "netip.ParseAddr":
					bad = "a malformed address"
				case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
					bad = "a malformed number"
				default:
					return false
				}
				if e.knownNil(facts, e.tt.mk("ext", "1", types.Universe.Lookup("error").Type(), y.Args[0])) {
					bad = ""
				}
				return bad != ""
			})
			if bad != "" {
				return 400, bad
			}
		}
	}
	return st, cause
}

func isParsedNum(t *Term) bool {
	t = strip(t)
	if t == nil || t.Op != "ext" || t.Sym != "0" {
		return false
	}
	switch callName(t.Args[0]) {
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		return true
	}
	return false
}

// errOf gives the error result of a call event.
func errOf(e *Engine, ev *Event) *Term {
	if ev.Call == nil {
		if ev.Res != nil && ev.Res.Typ != nil {
			if isErrorType(ev.Res.Typ) {
				return ev.Res
			}
			if tp, ok := ev.Res.Typ.(*types.Tuple); ok && tp.Len() > 0 && isErrorType(tp.At(tp.Len()-1).Type()) {
				return e.tt.mk("ext", string(rune('0'+tp.Len()-1)), tp.At(tp.Len()-1).Type(), ev.Res)
			}
		}
		return nil
	}
	sig := ev.Call.Common().Signature()
	n := sig.Results().Len()
	if n == 0 || !isErrorType(sig.Results().At(n-1).Type()) {
		return nil
	}
	if n == 1 {
		return ev.Res
	}
	return e.tt.mk("ext", string(rune('0'+n-1)), sig.Results().At(n-1).Type(), ev.Res)
}

func isErrorType(T types.Type) bool {
	return types.Identical(T, types.Universe.Lookup("error").Type())
}

// resultOf recognises result 0 of a call of the given function and gives the call.
func resultOf(t *Term, fn string) *Term {
	t = strip(t)
	if t != nil && t.Op == "ext" && t.Sym == "0" && callName(t.Args[0]) == fn {
		return t.Args[0]
	}
	return nil
}

func (c *Ctx) payloadCall(fn string) func(h *handler, p *Path, x *Term) string {
	return func(h *handler, p *Path, x *Term) string {
		if resultOf(x, fn) == nil {
			return "it is not what " + fn[strings.LastIndex(fn, ".")+1:] + " gives"
		}
		return ""
	}
}

// isParam recognises a URL parameter, possibly trimmed.
func isParam(h *handler, t *Term, name string) bool {
	t = strip(t)
	for callName(t) == "strings.TrimSpace" {
		t = t.Args[0]
	}
	if callName(t) == "chi.URLParam" && t.Args[0] == h.req {
		s, ok := t.Args[1].strVal()
		return ok && s == name
	}
	if strings.HasSuffix(callName(t), ").PathValue") {
		s, ok := t.Args[1].strVal()
		return ok && s == name
	}
	return false
}

// addressParam recognises the parsed address parameter.
func addressParam(h *handler, t *Term) bool {
	x := resultOf(t, "netip.ParseAddr")
	return x != nil && isParam(h, x.Args[0], "address")
}

func (c *Ctx) payloadFork(h *handler, p *Path, x *Term) string {
	f := resultOf(x, "(*chains.Linkage).Fork")
	if f == nil || !addressParam(h, f.Args[1]) {
		return "it is not the fork of the peer with the given address"
	}
	return ""
}

func (c *Ctx) payloadGenerators(h *handler, p *Path, x *Term) string {
	g := resultOf(x, "(*chains.Linkage).ForkGenerators")
	if g == nil {
		return "it is not a list of generators"
	}
	hb := strip(g.Args[1])
	if !endsWithField(hb, "HeadBlock") {
		return "the generators are not counted from the head of the fork"
	}
	fk := hb.Args[0]
	if hb.Op == "load" {
		fk = hb.Args[0].Args[0]
	}
	f := resultOf(fk, "(*chains.Linkage).Fork")
	if f == nil || !addressParam(h, f.Args[1]) {
		return "the fork is not that of the peer with the given address"
	}
	n := strip(g.Args[2])
	// which number was asked for
	zero, longest, nonneg := 0, 0, false
	for _, fa := range p.Facts {
		a := fa.Atom
		if a.Op == "eq" && isBlocksParam(h, a.Args[0]) {
			if k, ok := a.Args[1].int64(); ok && k == 0 {
				zero = sign(fa.Val)
			}
		}
		if a.Op == "lt" && isBlocksParam(h, a.Args[1]) {
			if k, ok := a.Args[0].int64(); ok && k == 0 {
				zero = sign(!fa.Val)
			}
		}
		if a.Op == "lt" && isBlocksParam(h, a.Args[0]) {
			if k, ok := a.Args[1].int64(); ok && k == 1 {
				zero = sign(fa.Val)
			}
		}
		if endsWithField(a, "Longest") && a.Args[0] == fk {
			longest = sign(fa.Val)
		}
		if a.Op == "lt" {
			if k, ok := a.Args[1].int64(); ok && isBlocksParam(h, a.Args[0]) && (k == 0 || k == 1) && !fa.Val {
				nonneg = true
			}
			if k, ok := a.Args[0].int64(); ok && isBlocksParam(h, a.Args[1]) && (k == 0 || k == -1) && fa.Val {
				nonneg = true
			}
		}
	}
	if zero != 1 && !nonneg && isBlocksParam(h, n) && callName(n.Args[0]) != "strconv.ParseUint" {
		return "a negative number of blocks is accepted"
	}
	switch {
	case isBlocksParam(h, n):
		if zero != -1 {
			return "no blocks are looked at when the number is left open"
		}
	case n.isConst():
		k, _ := n.int64()
		if zero != 1 || longest != 1 || k <= 0 {
			return "a fixed number of blocks is looked at"
		}
	case endsWithField(n, "Length") && n.Args[0] == fk:
		if zero != 1 || longest == 1 {
			return "the length of the fork is used instead of the given number"
		}
	default:
		return "the number of blocks is " + n.String()
	}
	return ""
}

func isBlocksParam(h *handler, t *Term) bool {
	t = strip(t)
	return isParsedNum(t) && isParam(h, t.Args[0].Args[0], "blocks")
}

// lookupSet checks that m holds exactly the peers listed in the request.
func (c *Ctx) lookupSet(h *handler, p *Path, m *Term) string {
	if m == nil || m.Op == "nil" {
		return "the peers of the request are ignored"
	}
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		hit := false
		var over *Term
		item := func(t *Term) bool {
			t = strip(t)
			for callName(t) == "strings.TrimSpace" {
				t = strip(t.Args[0])
			}
			if t.Op == "load" {
				t = t.Args[0]
			}
			if t.Op != "index" && t.Op != "iaddr" || !t.Args[1].is("iter", ev.Loop.ID) {
				return false
			}
			s := t.Args[0]
			if callName(s) != "strings.Split" {
				return false
			}
			sep, ok := s.Args[1].strVal()
			over = s
			return ok && sep == "," && queryParam(h, s.Args[0], "peers")
		}
		for _, b := range ev.Loop.Bodies {
			n := 0
			for _, x := range b.Events {
				if x.Kind == "mapset" && x.Args[0] == m {
					n++
					a := resultOf(x.Args[1], "netip.ParseAddr")
					if a == nil || !item(a.Args[0]) {
						return "something else than the listed addresses is looked up"
					}
					hit = true
				}
			}
			if n == 0 {
				blank := false
				for _, f := range b.own() {
					if f.Atom.Op == "eq" && f.Val {
						x := f.Atom.Args[0]
						if x.Op == "len" {
							x = x.Args[0]
						}
						if item(x) {
							blank = true
						}
					}
				}
				if !blank {
					return "a listed address can be left out"
				}
			}
		}
		if hit {
			if !exhausted(h.e, p, ev, over) {
				return "not all listed addresses are looked at"
			}
			return ""
		}
	}
	return "the peers of the request are not read"
}

func queryParam(h *handler, t *Term, name string) bool {
	t = strip(t)
	if callName(t) == "(url.Values).Get" {
		s, ok := t.Args[1].strVal()
		q := t.Args[0]
		return ok && s == name && callName(q) == "(*url.URL).Query" && q.Args[0].contains(h.req)
	}
	if callName(t) == "(*http.Request).FormValue" {
		s, ok := t.Args[1].strVal()
		return ok && s == name && t.Args[0] == h.req
	}
	return false
}

func (c *Ctx) payloadForks(h *handler, p *Path, x *Term) string {
	f := resultOf(x, "(*chains.Linkage).Forks")
	if f == nil {
		return "it is not a list of forks"
	}
	return c.lookupSet(h, p, strip(f.Args[1]))
}

// payloadActive: forks of the connected peers among those listed in the request (or all connected).
func (c *Ctx) payloadActive(h *handler, p *Path, x *Term) string {
	e := h.e
	f := resultOf(x, "(*chains.Linkage).Forks")
	// the table of connected peers
	var m, req *Term
	var loop *Event
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		for _, b := range ev.Loop.Bodies {
			for _, y := range b.Events {
				if y.Kind == "mapset" && c.connAddr(y.Args[1]) != nil {
					m, loop = y.Args[0], ev
				}
			}
		}
	}
	if m == nil {
		return "the connected peers are not collected"
	}
	var over *Term
	for _, b := range loop.Loop.Bodies {
		n := 0
		empty, has := 0, 0
		for _, y := range b.Events {
			if y.Kind == "mapset" && y.Args[0] == m {
				n++
				over = c.connAddr(y.Args[1])
				if over == nil {
					return "something else than a connected peer is collected"
				}
			}
		}
		for _, fa := range b.Facts {
			a := fa.Atom
			if a.Op == "has" && c.connAddr(a.Args[1]) != nil {
				req = a.Args[0]
				has = sign(fa.Val)
			}
		}
		for _, fa := range b.Facts {
			a := fa.Atom
			if req != nil && a.Op == "eq" && a.Args[0].Op == "len" && a.Args[0].Args[0] == req {
				if k, ok := a.Args[1].int64(); ok && k == 0 {
					empty = sign(fa.Val)
				}
			}
		}
		if req == nil {
			// the set of the request is known to be empty on this path
			for _, fa := range b.Facts {
				a := fa.Atom
				if fa.Val && a.Op == "eq" && a.Args[0].Op == "len" {
					if k, ok := a.Args[1].int64(); ok && k == 0 && c.lookupSet(h, p, a.Args[0].Args[0]) == "" {
						empty = 1
					}
				}
			}
		}
		if n == 1 && empty != 1 && has != 1 {
			return "a connected peer that is not listed in the request is included"
		}
		if n == 0 && !(empty == -1 && has == -1) {
			return "a connected peer is left out"
		}
	}
	if req != nil {
		if why := c.lookupSet(h, p, req); why != "" {
			return why
		}
	}
	if over == nil || !exhausted(e, p, loop, over) {
		return "not all connections are looked at"
	}
	none := 0
	for _, fa := range p.Facts {
		if fa.Atom.Op == "eq" && fa.Atom.Args[0].Op == "len" && fa.Atom.Args[0].Args[0] == m {
			if k, ok := fa.Atom.Args[1].int64(); ok && k == 0 {
				none = sign(fa.Val)
			}
		}
	}
	if f != nil {
		if strip(f.Args[1]) != m {
			return "the forks are not those of the connected peers"
		}
		if none != -1 {
			return "all forks are reported when no peer is connected"
		}
		return ""
	}
	if !emptyList(x) {
		return "it is not a list of forks"
	}
	if none != 1 {
		return "no forks are reported although peers are connected"
	}
	return ""
}

// connAddr recognises the address of an element of the list of connections and gives the list.
func (c *Ctx) connAddr(t *Term) *Term {
	t = strip(t)
	if callName(t) != "(netip.AddrPort).Addr" {
		return nil
	}
	list, _, f, ok := elemField(t.Args[0])
	if !ok || f != "AddressPort" || resultOf(list, "(*peers.Registry).Connections") == nil {
		return nil
	}
	return list
}

func (c *Ctx) payloadStatus(h *handler, p *Path, x *Term) string {
	if x.Op != "struct" {
		return "it is not a status"
	}
	jf := func(tag string) *Term {
		su, ok := x.Typ.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < su.NumFields(); i++ {
			if jsonName(su, i) == tag {
				return strip(x.Args[i])
			}
		}
		return nil
	}
	stat := func(t *Term, f string) bool {
		return t != nil && endsWithField(t, f) && resultOf(fieldBase(t), "(*chains.Linkage).Stats") != nil
	}
	count := func(t *Term, fn string) bool {
		return t != nil && t.Op == "len" && resultOf(t.Args[0], fn) != nil
	}
	switch {
	case !stat(jf("short_forks_count"), "Short"):
		return "the number of short forks"
	case !stat(jf("long_forks_count"), "Long"):
		return "the number of long forks"
	case !count(jf("all_peers_count"), "(*peers.Registry).Peers"):
		return "the number of peers"
	case !count(jf("friendly_peers_count"), "(*peers.Registry).FriendlyPeers"):
		return "the number of friendly peers"
	case !count(jf("connected_peers_count"), "(*peers.Registry).Connections"):
		return "the number of connected peers"
	}
	return ""
}

func fieldBase(t *Term) *Term {
	t = strip(t)
	if t.Op == "load" {
		t = t.Args[0]
	}
	return t.Args[0]
}

func jsonName(su *types.Struct, i int) string {
	tag := su.Tag(i)
	if k := strings.Index(tag, `json:"`); k >= 0 {
		tag = tag[k+6:]
		if j := strings.IndexAny(tag, `",`); j >= 0 {
			return tag[:j]
		}
	}
	return su.Field(i).Name()
}

func jsonField(x *Term, name string) *Term {
	if x == nil || x.Op != "struct" {
		return nil
	}
	su, ok := x.Typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < su.NumFields(); i++ {
		if jsonName(su, i) == name {
			return strip(x.Args[i])
		}
	}
	return nil
}

// ofBlock: t is field f of the block with the given ID as read from the store.
func ofBlock(t *Term, f string, id func(*Term) bool) bool {
	if t == nil || !endsWithField(t, f) {
		return false
	}
	b := resultOf(fieldBase(t), "(*chains.Linkage).Block")
	return b != nil && id(strip(b.Args[1]))
}

func isTimeOf(t *Term, id func(*Term) bool) bool {
	return t != nil && callName(t) == "time.UnixMilli" && ofBlock(strip(t.Args[0]), "Timestamp", id)
}

func stringOf(t *Term) *Term {
	t = strip(t)
	if t != nil && (callName(t) == "(proto.BlockID).String" || callName(t) == "(netip.Addr).String") {
		return strip(t.Args[0])
	}
	return nil
}

func (c *Ctx) payloadHeads(h *handler, p *Path, x *Term) string {
	d := listDefOf(h.e, p, x)
	if d == nil {
		return "it is not a list with one entry per head"
	}
	it := h.e.tt.mk("iter", d.ev.Loop.ID, types.Typ[types.Int])
	for _, el := range d.elems {
		if el == nil || el.Op != "struct" {
			return "a head is left out"
		}
		n := jsonField(el, "number")
		list, idx, f, ok := elemField(n)
		if !ok || f != "ID" || idx != it || resultOf(list, "(*chains.Linkage).ActiveHeads") == nil {
			return "the number of a head"
		}
		if !exhausted(h.e, p, d.ev, list) {
			return "not all heads are reported"
		}
		isID := func(t *Term) bool {
			l, i, f, ok := elemField(t)
			return ok && l == list && i == it && f == "BlockID"
		}
		sid := stringOf(jsonField(el, "id"))
		switch {
		case sid == nil || !isID(sid) && !ofBlock(sid, "ID", isID):
			return "the ID of a head"
		case !ofBlock(jsonField(el, "height"), "Height", isID):
			return "the height of a head"
		case !ofBlock(jsonField(el, "score"), "Score", isID):
			return "the score of a head"
		case !isTimeOf(jsonField(el, "timestamp"), isID):
			return "the timestamp of a head"
		}
	}
	return ""
}

func (c *Ctx) payloadLeashes(h *handler, p *Path, x *Term) string {
	e := h.e
	d := listDefOf(e, p, x)
	if d == nil {
		return "it is not a list with one entry per leashed block"
	}
	var m *Term
	for bi, el := range d.elems {
		if el == nil || el.Op != "struct" {
			return "a leashed block is left out"
		}
		var key, val *Term
		for _, f := range d.ev.Loop.Bodies[bi].own() {
			if f.Atom.Op == "more" && f.Val {
				m = f.Atom.Args[0].Args[0]
				key, val = e.tt.mk("mapkey", f.Atom.Sym, nil, m), e.tt.mk("mapval", f.Atom.Sym, nil, m)
			}
		}
		if m == nil || !exhausted(e, p, d.ev, m) {
			return "not all leashed blocks are reported"
		}
		isID := func(t *Term) bool { return t == key }
		sid := stringOf(jsonField(el, "block_id"))
		n := jsonField(el, "peers_count")
		switch {
		case sid == nil || !isID(sid) && !ofBlock(sid, "ID", isID):
			return "the ID of a leashed block"
		case !ofBlock(jsonField(el, "height"), "Height", isID):
			return "the height of a leashed block"
		case !ofBlock(jsonField(el, "score"), "Score", isID):
			return "the score of a leashed block"
		case !isTimeOf(jsonField(el, "timestamp"), isID):
			return "the timestamp of a leashed block"
		case !ofBlock(jsonField(el, "generator"), "Generator", isID):
			return "the generator of a leashed block"
		case n == nil || n.Op != "len" || n.Args[0] != val:
			return "the number of leashed peers"
		case jsonField(el, "peers") != val:
			return "the leashed peers"
		}
	}
	// the order
	base, order := x, "it is not sorted"
	if base.Op == "sorted" {
		base = base.Args[0]
	}
	for _, ev := range sortEvents(p) {
		if ev.Res != nil && ev.Res.Op == "sorted" && ev.Res.Args[0] == base {
			order = c.sortedBy(e, ev, forkOrder())
		}
	}
	if order != "" {
		return "the order of the leashed blocks: " + order
	}
	// the table
	for _, ev := range p.Events {
		if ev.Kind != "loop" || ev == d.ev {
			continue
		}
		hit, once := false, true
		it := e.tt.mk("iter", ev.Loop.ID, types.Typ[types.Int])
		var list *Term
		for _, b := range ev.Loop.Bodies {
			n := 0
			for _, y := range b.Events {
				if y.Kind != "mapset" || y.Args[0] != m {
					continue
				}
				n++
				hit = true
				l, i, f, ok := elemField(y.Args[1])
				if !ok || f != "BlockID" || i != it || resultOf(l, "(*chains.Linkage).Leashes") == nil {
					return "the table is not keyed by leashed blocks"
				}
				list = l
				v := y.Args[2]
				if v.Op != "append" || len(v.Args) != 2 || !isLookup(v.Args[0], m, y.Args[1]) {
					return "an earlier leash to the same block is overwritten"
				}
				s := stringOf(v.Args[1])
				l2, i2, f2, ok2 := elemField(s)
				if s == nil || !ok2 || l2 != list || i2 != it || f2 != "Addr" {
					return "the table does not collect the leashed peers"
				}
			}
			once = once && n == 1
		}
		if hit {
			if !once {
				return "a leash is left out"
			}
			if !exhausted(e, p, ev, list) {
				return "not all leashes are looked at"
			}
			return ""
		}
	}
	return "the leashes are not collected"
}
