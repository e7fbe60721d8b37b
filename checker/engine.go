package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine is an interprocedural, path-partitioned dataflow analysis over SSA. Abstract values are
// Terms (value numbers), the abstract store maps addresses to Terms, branch outcomes are remembered as
// facts, loops are summarised by one abstract iteration from a widened (havocked) state. Nothing is
// executed and no solver is consulted: branch outcomes are decided by table lookup or left open.

type Fact struct {
	Atom *Term
	Val  bool
	Pos  token.Pos
}

func (f Fact) String() string {
	if f.Val {
		return f.Atom.String()
	}
	return "!" + f.Atom.String()
}

type Event struct {
	Kind   string // call, store, mapset, mapdel, send, recv, select, go, loop, return
	Fn     string
	Args   []*Term
	Vals   []*Term // what pointers to local objects among the arguments point at
	Res    *Term
	Pos    token.Pos
	Stack  []string
	NFacts int
	Pure   bool
	Loop   *LoopInfo
	Bodies []*Path // for go
	Call   ssa.CallInstruction
	Extra  string
	InFn   *ssa.Function
}

type LoopPhi struct {
	Term  *Term
	Name  string
	Init  *Term
	Backs []*Term
}

type LoopInfo struct {
	ID     string
	Fn     *ssa.Function
	Pos    token.Pos
	Phis   []*LoopPhi
	Bodies []*Path
	NBase  int // number of facts known at loop entry
	Mod    []*Term
	ModSt  []*State
	Before map[*Term]*Term // values of the modified cells at loop entry
}

type Path struct {
	Kind    string // return, panic, back, exit
	Events  []*Event
	Facts   []Fact
	Base    int // first fact that belongs to this path proper
	Results []*Term
	Pos     token.Pos
	St      *State
	Fn      *ssa.Function // function in which the path ended
	Stack   []string
	PanicV  *Term
}

type evNode struct {
	prev *evNode
	ev   *Event
	n    int
}

type deferRec struct {
	frame int
	in    *ssa.Defer
	fn    *Term // callee value
	args  []*Term
}

type State struct {
	mem    map[*Term]*Term
	shared bool
	facts  []Fact
	ev     *evNode
	defers []deferRec
}

func (s *State) clone() *State {
	s.shared = true
	return &State{mem: s.mem, shared: true, facts: s.facts[:len(s.facts):len(s.facts)], ev: s.ev,
		defers: s.defers[:len(s.defers):len(s.defers)]}
}

func (s *State) own() {
	if s.shared {
		m := make(map[*Term]*Term, len(s.mem)+4)
		for k, v := range s.mem {
			m[k] = v
		}
		s.mem = m
		s.shared = false
	}
}

func (s *State) set(k, v *Term) { s.own(); s.mem[k] = v }
func (s *State) del(k *Term)    { s.own(); delete(s.mem, k) }

func (s *State) push(e *Event) {
	n := 1
	if s.ev != nil {
		n = s.ev.n + 1
	}
	s.ev = &evNode{prev: s.ev, ev: e, n: n}
}

func (s *State) events() []*Event {
	if s.ev == nil {
		return nil
	}
	r := make([]*Event, s.ev.n)
	for n := s.ev; n != nil; n = n.prev {
		r[n.n-1] = n.ev
	}
	return r
}

type outcome struct {
	kind    string // return, panic, back, exit
	st      *State
	results []*Term
	pos     token.Pos
	target  *ssa.BasicBlock
	from    *ssa.BasicBlock
	env     env
	fn      *ssa.Function
	stack   []string
	panicV  *Term
}

type env map[ssa.Value]*Term

func (e env) clone() env {
	r := make(env, len(e)+8)
	for k, v := range e {
		r[k] = v
	}
	return r
}

type loopCtx struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type frame struct {
	id    int
	fn    *ssa.Function
	depth int
	stack []string
	fns   map[*ssa.Function]int
	loops map[*ssa.BasicBlock]*loopCtx
	bind  []*Term
}

type Engine struct {
	rangeVer map[string]*Term // versions of the maps when the iterations over them took their keys
	p        *Program
	tt       *TermTable
	noInline func(*ssa.Function) bool
	uid      int
	steps    int
	maxSteps int
	frames   int
	seen     map[*ssa.Function]bool
	nPaths   int
	nEvents  int
	failed   string
	loopInfo map[*ssa.Function]map[*ssa.BasicBlock]*loopCtx
	noGo     bool
}

func newEngine(p *Program) *Engine {
	return &Engine{p: p, tt: newTermTable(), maxSteps: 4_000_000, seen: map[*ssa.Function]bool{},
		loopInfo: map[*ssa.Function]map[*ssa.BasicBlock]*loopCtx{}}
}

type undecided struct{ why string }

func (e *Engine) fail(why string) { panic(undecided{why}) }

// analyze runs the analysis of fn from an arbitrary state with symbolic parameters.
func (e *Engine) analyze(fn *ssa.Function) []*Path {
	args := make([]*Term, len(fn.Params))
	for i, p := range fn.Params {
		args[i] = e.paramTerm(fn, i, p)
	}
	var bind []*Term
	for i, fv := range fn.FreeVars {
		n := fv.Name()
		if n == "" {
			n = fmt.Sprint(i)
		}
		bind = append(bind, e.tt.mk("param", "free:"+n, fv.Type()))
	}
	return e.analyzeWith(fn, args, bind, &State{mem: map[*Term]*Term{}})
}

func (e *Engine) paramTerm(fn *ssa.Function, i int, p *ssa.Parameter) *Term {
	name := p.Name()
	if name == "" || name == "_" {
		name = fmt.Sprintf("p%d", i)
	}
	return e.tt.mk("param", fmt.Sprintf("%s", name), p.Type())
}

func (e *Engine) analyzeWith(fn *ssa.Function, args, bind []*Term, st *State) []*Path {
	outs := e.call(fn, args, bind, st, nil)
	return e.toPaths(outs, 0)
}

func (e *Engine) toPaths(outs []*outcome, base int) []*Path {
	var r []*Path
	for _, o := range outs {
		p := &Path{Kind: o.kind, Events: o.st.events(), Facts: o.st.facts, Base: base, Results: o.results, Pos: o.pos,
			St: o.st, Fn: o.fn, Stack: o.stack, PanicV: o.panicV}
		r = append(r, p)
		e.nPaths++
		e.nEvents += len(p.Events)
	}
	return r
}

func (e *Engine) call(fn *ssa.Function, args, bind []*Term, st *State, caller *frame) []*outcome {
	e.frames++
	fr := &frame{id: e.frames, fn: fn, bind: bind}
	name := e.p.funcName(fn)
	if caller != nil {
		fr.depth = caller.depth + 1
		fr.stack = append(caller.stack[:len(caller.stack):len(caller.stack)], name)
	} else {
		fr.stack = []string{name}
	}
	e.seen[fn] = true
	fr.loops = e.loopsOf(fn)
	ev := env{}
	for i, p := range fn.Params {
		if i < len(args) {
			ev[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			ev[fv] = bind[i]
		}
	}
	return e.block(fr, fn.Blocks[0], nil, ev, st, nil)
}

// loopsOf finds natural loops.
func (e *Engine) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopCtx {
	if l, ok := e.loopInfo[fn]; ok {
		return l
	}
	r := map[*ssa.BasicBlock]*loopCtx{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := r[s]
				if l == nil {
					l = &loopCtx{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					r[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	e.loopInfo[fn] = r
	return r
}

func (e *Engine) jump(fr *frame, t, from *ssa.BasicBlock, ev env, st *State, loops []*loopCtx) []*outcome {
	if n := len(loops); n > 0 {
		l := loops[n-1]
		if t == l.header {
			return []*outcome{{kind: "back", st: st, env: ev, target: t, from: from, fn: fr.fn, stack: fr.stack}}
		}
		if !l.blocks[t] {
			return []*outcome{{kind: "exit", st: st, env: ev, target: t, from: from, fn: fr.fn, stack: fr.stack}}
		}
	}
	if l, ok := fr.loops[t]; ok {
		return e.loop(fr, l, from, ev, st, loops)
	}
	return e.block(fr, t, from, ev, st, loops)
}

func (e *Engine) newUID() string { e.uid++; return fmt.Sprint(e.uid) }

// maxUnroll bounds the constant-count loops whose iterations are followed one by one.
const maxUnroll = 8

// tripCount gives the number of times the body of a loop counting up by one to a known bound runs.
func (e *Engine) tripCount(fr *frame, l *loopCtx, predIdx int, ev env) (int64, bool) {
	h := l.header
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || predIdx < 0 || !l.blocks[h.Succs[0]] || l.blocks[h.Succs[1]] {
		return 0, false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return 0, false
	}
	if in, ok := cmp.Y.(ssa.Instruction); ok && l.blocks[in.Block()] {
		return 0, false
	}
	limit, ok := e.val(fr, cmp.Y, ev).int64()
	if !ok {
		return 0, false
	}
	phi, ok := cmp.X.(*ssa.Phi)
	var plus int64
	if !ok {
		b, isb := cmp.X.(*ssa.BinOp)
		if !isb || b.Op != token.ADD {
			return 0, false
		}
		c, isc := b.Y.(*ssa.Const)
		phi, ok = b.X.(*ssa.Phi)
		if !ok || !isc || c.Value == nil || constant.Compare(c.Value, token.NEQ, constant.MakeInt64(1)) {
			return 0, false
		}
		plus = 1
	}
	if phi.Block() != h || !isIntType(phi.Type()) {
		return 0, false
	}
	init, ok := e.val(fr, phi.Edges[predIdx], ev).int64()
	if !ok || e.induction(phi, l, e.val(fr, phi.Edges[predIdx], ev), "L0") == nil {
		return 0, false
	}
	n := limit - init - plus
	return n, n >= 0 && n <= maxUnroll
}

// unroll follows the iterations of a loop with a small constant count one by one.
func (e *Engine) unroll(fr *frame, l *loopCtx, from *ssa.BasicBlock, ev env, st *State, loops []*loopCtx) ([]*outcome, bool) {
	h := l.header
	idx := -1
	for i, p := range h.Preds {
		if p == from {
			idx = i
		}
	}
	n, ok := e.tripCount(fr, l, idx, ev)
	if !ok {
		return nil, false
	}
	inner := append(loops[:len(loops):len(loops)], l)
	enter := func(i int, at env) env {
		next := at.clone()
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			next[phi] = e.val(fr, phi.Edges[i], at)
		}
		return next
	}
	var res []*outcome
	cur := []*outcome{{st: st.clone(), env: enter(idx, ev)}}
	for i := int64(0); i <= n; i++ {
		var next []*outcome
		for _, c := range cur {
			for _, o := range e.block(fr, h, nil, c.env, c.st, inner) {
				switch o.kind {
				case "back":
					bi := -1
					for j, p := range h.Preds {
						if p == o.from {
							bi = j
						}
					}
					next = append(next, &outcome{st: o.st, env: enter(bi, o.env)})
				case "exit":
					res = append(res, e.jump(fr, o.target, o.from, o.env, o.st, loops)...)
				default:
					res = append(res, o)
				}
			}
		}
		cur = next
		if len(cur) == 0 {
			return res, true
		}
		if len(cur) > 32 {
			break
		}
	}
	return nil, false
}

func (e *Engine) loop(fr *frame, l *loopCtx, from *ssa.BasicBlock, ev env, st *State, loops []*loopCtx) []*outcome {
	if outs, ok := e.unroll(fr, l, from, ev, st, loops); ok {
		return outs
	}
	startUID := e.uid
	lid := "L" + e.newUID()
	h := l.header
	inner := append(loops[:len(loops):len(loops)], l)
	var phis []*LoopPhi
	predIdx := -1
	for i, p := range h.Preds {
		if p == from {
			predIdx = i
		}
	}
	baseEnv := ev.clone()
	n := 0
	perIter := map[*ssa.Phi]*Term{}
	var phiVals []*ssa.Phi
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if predIdx >= 0 && ownCopy(phi, l) != nil {
			if cell := e.val(fr, phi.Edges[predIdx], ev); cell != nil && cell.Op == "alloc" {
				baseEnv[phi] = cell
				perIter[phi] = cell
				continue
			}
		}
		lp := &LoopPhi{Name: phi.Comment, Term: e.tt.mk("loopphi", fmt.Sprintf("%s.%d", lid, n), phi.Type())}
		if predIdx >= 0 {
			lp.Init = e.val(fr, phi.Edges[predIdx], ev)
		}
		lp.Term.Obj = lp
		if t := e.induction(phi, l, lp.Init, lid); t != nil {
			lp.Term = t
		} else if t := e.stepped(phi, l, lp.Init, predIdx, lid); t != nil {
			lp.Term = t
		}
		baseEnv[phi] = lp.Term
		phis = append(phis, lp)
		phiVals = append(phiVals, phi)
		n++
	}
	// A variable of which every iteration has its own copy is one variable that the iterations take over from each other.
	body := func(st *State) []*outcome {
		outs := e.block(fr, h, nil, baseEnv.clone(), st, inner)
		for phi, cell := range perIter {
			for _, o := range outs {
				for i, p := range h.Preds {
					if o.kind == "back" && p == o.from {
						if v := e.val(fr, phi.Edges[i], o.env); v != cell {
							o.st.set(cell, e.load(o.st, v, typOr(cell).(*types.Pointer).Elem()))
						}
					}
				}
			}
		}
		return outs
	}
	var outs []*outcome
	cells := map[*Term]*LoopPhi{}
	var order []*Term
	start := func(havoc map[*Term]bool) *State {
		stH := st.clone()
		stH.ev = nil
		for a := range havoc {
			stH.set(a, e.havoc(lid, a))
		}
		for a, lp := range cells {
			stH.set(a, lp.Term)
		}
		return stH
	}
	// What an iteration may change is unknown at the start of the next.
	changed := func() map[*Term]bool {
		havoc := map[*Term]bool{}
		for iter := 0; ; iter++ {
			stH := start(havoc)
			outs = body(stH.clone())
			grew := false
			for _, o := range outs {
				if o.kind != "back" {
					continue
				}
				for a, v := range o.st.mem {
					if havoc[a] || cells[a] != nil || stH.mem[a] == v || !e.preexists(a, startUID) {
						continue
					}
					havoc[a] = true
					grew = true
				}
				for a := range stH.mem {
					if _, ok := o.st.mem[a]; !ok && !havoc[a] && cells[a] == nil && e.preexists(a, startUID) {
						havoc[a] = true
						grew = true
					}
				}
			}
			if !grew || iter > 6 {
				return havoc
			}
		}
	}
	havoc := changed()
	// A variable of its own that is kept in memory, as one a function literal uses, is a variable of the loop like any other.
	for a := range havoc {
		if pt, ok := typOr(a).(*types.Pointer); ok && a.Op == "alloc" && e.preexists(a, startUID) {
			switch pt.Elem().Underlying().(type) {
			case *types.Basic, *types.Slice, *types.Pointer, *types.Interface, *types.Map:
				order = append(order, a)
			}
		}
	}
	if len(order) > 0 {
		sort.Slice(order, func(i, j int) bool { return order[i].ID < order[j].ID })
		for _, a := range order {
			lp := &LoopPhi{Init: e.load(st, a, typOr(a).(*types.Pointer).Elem())}
			lp.Term = e.tt.mk("loopphi", fmt.Sprintf("%s.%d", lid, n), typOr(a).(*types.Pointer).Elem())
			lp.Term.Obj = lp
			n++
			cells[a] = lp
			delete(havoc, a)
		}
		outs = body(start(havoc))
		next := func(a *Term) (r []*Term) {
			for _, o := range outs {
				if o.kind == "back" {
					r = append(r, e.load(o.st, a, typOr(cells[a].Term)))
				}
			}
			return r
		}
		for _, a := range order {
			lp := cells[a]
			vs := next(a)
			step := lp.Init != nil && isIntType(typOr(lp.Term)) && len(vs) > 0
			for _, v := range vs {
				step = step && v == e.addConst(lp.Term, 1, typOr(lp.Term))
			}
			if !step {
				continue
			}
			if c, ok := lp.Init.int64(); ok {
				lp.Term = e.addConst(e.tt.mk("iter", lid, typOr(lp.Term)), c, typOr(lp.Term))
			}
		}
		havoc = changed()
		for _, a := range order {
			cells[a].Backs = next(a)
		}
	}
	li := &LoopInfo{ID: lid, Fn: fr.fn, Pos: blockPos(h), Phis: phis, NBase: len(st.facts), Before: map[*Term]*Term{}}
	for a := range havoc {
		li.Mod = append(li.Mod, a)
		li.Before[a] = st.mem[a]
		if pt, ok := typOr(a).(*types.Pointer); ok && li.Before[a] == nil && (a.Op == "faddr" || a.Op == "alloc") && rootOf(a).Op == "alloc" {
			li.Before[a] = e.load(st, a, pt.Elem())
		}
	}
	sort.Slice(li.Mod, func(i, j int) bool { return li.Mod[i].ID < li.Mod[j].ID })
	var backs, rest []*outcome
	for _, o := range outs {
		if o.kind == "back" {
			backs = append(backs, o)
			bi := -1
			for i, p := range h.Preds {
				if p == o.from {
					bi = i
				}
			}
			for i, phi := range phiVals {
				if bi >= 0 {
					v := e.val(fr, phi.Edges[bi], o.env)
					phis[i].Backs = append(phis[i].Backs, v)
				}
			}
		} else {
			rest = append(rest, o)
		}
	}
	for _, a := range order {
		li.Phis = append(li.Phis, cells[a])
	}
	li.Bodies = e.toPaths(backs, len(st.facts))
	lev := &Event{Kind: "loop", Loop: li, Pos: li.Pos, Stack: fr.stack, NFacts: len(st.facts), InFn: fr.fn}
	var res []*outcome
	if len(rest) == 0 {
		// the loop is never left
		d := st.clone()
		d.push(lev)
		return []*outcome{{kind: "diverge", st: d, pos: li.Pos, fn: fr.fn, stack: fr.stack}}
	}
	for _, o := range rest {
		// splice: events before the loop, the loop summary, events of the last partial iteration
		part := o.st.events()
		o.st.ev = st.ev
		o.st.push(lev)
		for _, x := range part {
			o.st.push(x)
		}
		switch o.kind {
		case "exit":
			if n := e.ranOut(li, o.st.facts[min(len(st.facts), len(o.st.facts)):]); n != nil {
				it := e.tt.mk("iter", lid, nil)
				for i, phi := range phiVals {
					if t := phis[i].Term; t == it || t.Op == "iter" && t.Sym == lid {
						o.env = o.env.clone()
						o.env[phi] = n
					}
				}
				for _, a := range order {
					if t := cells[a].Term; t == it {
						o.st.set(a, n)
					}
				}
			}
			res = append(res, e.jump(fr, o.target, o.from, o.env, o.st, loops)...)
		default:
			res = append(res, o)
		}
	}
	return res
}

// ownCopy gives the variables that the iterations of a loop have of their own where the phi is one of them.
func ownCopy(phi *ssa.Phi, l *loopCtx) []*ssa.Alloc {
	var r []*ssa.Alloc
	for i, p := range phi.Block().Preds {
		if !l.blocks[p] {
			continue
		}
		a, ok := phi.Edges[i].(*ssa.Alloc)
		if !ok || !l.blocks[a.Block()] || !types.Identical(a.Type(), phi.Type()) {
			return nil
		}
		r = append(r, a)
	}
	return r
}

// ranOut: a loop that goes on as long as its count is below the length of a list was left because it is not; the count is
// that length then.
func (e *Engine) ranOut(li *LoopInfo, facts []Fact) *Term {
	bound := func(f Fact, val bool) *Term {
		a := f.Atom
		if a.Op == "lt" && f.Val == val && a.Args[0].is("iter", li.ID) && a.Args[1].Op == "len" && !a.Args[1].any(func(x *Term) bool {
			return x.Op == "iter" && x.Sym == li.ID || x.Op == "loopphi" && strings.HasPrefix(x.Sym, li.ID+".") || x.Op == "havoc" && x.Sym == li.ID
		}) {
			return a.Args[1]
		}
		return nil
	}
	var n *Term
	for _, f := range facts {
		if b := bound(f, false); b != nil {
			n = b
		}
	}
	if n == nil {
		return nil
	}
	for _, b := range li.Bodies {
		if b.Kind != "back" {
			continue
		}
		below := false
		for _, f := range b.own() {
			if bound(f, true) == n {
				below = true
			}
		}
		if !below {
			return nil
		}
	}
	return n
}

// havoc is the unknown value of a cell at the start of an iteration of a loop.
func (e *Engine) havoc(lid string, a *Term) *Term {
	var T types.Type
	if a.Typ != nil {
		if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
			T = p.Elem()
		}
	}
	return e.tt.mk("havoc", lid, T, a)
}

// induction recognises a variable that starts at a constant and grows by one on every iteration and
// expresses it through the iteration number, so that loops counting from 0, 1 or -1 look the same.
func (e *Engine) induction(phi *ssa.Phi, l *loopCtx, init *Term, lid string) *Term {
	if init == nil || !isIntType(phi.Type()) {
		return nil
	}
	n, ok := init.int64()
	if !ok {
		return nil
	}
	for i, p := range phi.Block().Preds {
		if !l.blocks[p] {
			continue
		}
		b, ok := phi.Edges[i].(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return nil
		}
		x, y := b.X, b.Y
		if _, ok := x.(*ssa.Const); ok {
			x, y = y, x
		}
		c, ok := y.(*ssa.Const)
		if x != ssa.Value(phi) || !ok || c.Value == nil || constant.Compare(c.Value, token.NEQ, constant.MakeInt64(1)) {
			return nil
		}
	}
	it := e.tt.mk("iter", lid, phi.Type())
	return e.addConst(it, n, phi.Type())
}

// stepped recognises the answer of First and then of every Next of one iterator: it tells whether the iterator is valid.
func (e *Engine) stepped(phi *ssa.Phi, l *loopCtx, init *Term, predIdx int, lid string) *Term {
	if init == nil || init.Op != "ucall" || !strings.HasSuffix(callName(init), ").First") || len(init.Args) != 1 {
		return nil
	}
	on := func(v ssa.Value, method string) ssa.Value {
		c, ok := v.(*ssa.Call)
		if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != method {
			return nil
		}
		return c.Call.Value
	}
	// The methods may be declared by different embedded interfaces, the value is then converted first.
	root := func(v ssa.Value) ssa.Value {
		for {
			ci, ok := v.(*ssa.ChangeInterface)
			if !ok {
				return v
			}
			v = ci.X
		}
	}
	first := on(phi.Edges[predIdx], "First")
	if first == nil {
		return nil
	}
	for i, p := range phi.Block().Preds {
		if !l.blocks[p] {
			continue
		}
		next := on(phi.Edges[i], "Next")
		if next == nil || root(next) != root(first) {
			return nil
		}
	}
	name := strings.TrimSuffix(callName(init), "First") + "Valid"
	return e.tt.mk("ucall", name+"#"+lid, phi.Type(), init.Args[0])
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

// preexists reports whether an address existed before uid start was handed out.
func (e *Engine) preexists(a *Term, start int) bool {
	return !a.any(func(t *Term) bool {
		switch t.Op {
		case "alloc", "mkslice", "mkmap", "mkchan", "bigalloc", "ucall", "range", "next", "sorted":
			n := 0
			fmt.Sscanf(t.Sym[strings.LastIndex(t.Sym, "#")+1:], "%d", &n)
			return n > start
		}
		return false
	})
}

func (e *Engine) block(fr *frame, b, from *ssa.BasicBlock, ev env, st *State, loops []*loopCtx) []*outcome {
	// resolve phis (loop headers have theirs preset and are entered with from == nil)
	if from != nil {
		pi := -1
		for i, p := range b.Preds {
			if p == from {
				pi = i
			}
		}
		var vals []*Term
		var ph []*ssa.Phi
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			vals = append(vals, e.val(fr, phi.Edges[pi], ev))
			ph = append(ph, phi)
		}
		for i := range ph {
			ev[ph[i]] = vals[i]
		}
	}
	return e.instrs(fr, b, 0, ev, st, loops)
}

func (e *Engine) instrs(fr *frame, b *ssa.BasicBlock, idx int, ev env, st *State, loops []*loopCtx) []*outcome {
	for i := idx; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps > e.maxSteps {
			e.fail("step limit exceeded in " + e.p.funcName(fr.fn))
		}
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return e.jump(fr, b.Succs[0], b, ev, st, loops)
		case *ssa.If:
			c := e.val(fr, x.Cond, ev)
			if v, known := e.eval(st, c); known {
				if v {
					return e.jump(fr, b.Succs[0], b, ev, st, loops)
				}
				return e.jump(fr, b.Succs[1], b, ev, st, loops)
			}
			st2 := st.clone()
			ev2 := ev.clone()
			pos := x.Cond.Pos()
			var r []*outcome
			if e.assume(st, c, true, pos) {
				r = append(r, e.jump(fr, b.Succs[0], b, ev, st, loops)...)
			}
			if e.assume(st2, c, false, pos) {
				r = append(r, e.jump(fr, b.Succs[1], b, ev2, st2, loops)...)
			}
			return r
		case *ssa.Return:
			var res []*Term
			for _, v := range x.Results {
				res = append(res, e.val(fr, v, ev))
			}
			return []*outcome{{kind: "return", st: st, results: res, pos: x.Pos(), fn: fr.fn, stack: fr.stack}}
		case *ssa.Panic:
			return []*outcome{{kind: "panic", st: st, pos: x.Pos(), fn: fr.fn, stack: fr.stack, panicV: e.val(fr, x.X, ev)}}
		case *ssa.RunDefers:
			outs := e.runDefers(fr, st)
			return e.resume(fr, b, i, ev, outs, loops, nil)
		case *ssa.Defer:
			args := e.callArgs(fr, x.Common(), ev)
			var fnT *Term
			if !x.Common().IsInvoke() {
				fnT = e.val(fr, x.Common().Value, ev)
			}
			st.defers = append(st.defers[:len(st.defers):len(st.defers)], deferRec{fr.id, x, fnT, args})
		case *ssa.Go:
			e.goStmt(fr, x, ev, st)
		case *ssa.Call:
			args := e.callArgs(fr, x.Common(), ev)
			var fnT *Term
			if !x.Common().IsInvoke() {
				fnT = e.val(fr, x.Common().Value, ev)
			}
			outs := e.callInstr(fr, x, x.Common(), fnT, args, st)
			if len(outs) == 1 && outs[0].kind == "return" {
				st = outs[0].st
				e.bindCall(ev, x, outs[0].results)
				continue
			}
			return e.resume(fr, b, i, ev, outs, loops, x)
		case *ssa.Select:
			return e.selectInstr(fr, x, b, i, ev, st, loops)
		default:
			outs, forked := e.simple(fr, in, ev, st)
			if forked {
				var r []*outcome
				for _, o := range outs {
					if o.kind == "return" { // continue
						r = append(r, e.instrs(fr, b, i+1, o.env, o.st, loops)...)
					} else {
						r = append(r, o)
					}
				}
				return r
			}
		}
	}
	e.fail("block without terminator in " + e.p.funcName(fr.fn))
	return nil
}

func (e *Engine) bindCall(ev env, x *ssa.Call, results []*Term) {
	switch len(results) {
	case 0:
		ev[x] = e.tt.mk("tuple", "", x.Type())
	case 1:
		ev[x] = results[0]
	default:
		ev[x] = e.tt.mk("tuple", "", x.Type(), results...)
	}
}

// resume continues after instruction i for each outcome of a nested call.
func (e *Engine) resume(fr *frame, b *ssa.BasicBlock, i int, ev env, outs []*outcome, loops []*loopCtx, x *ssa.Call) []*outcome {
	var r []*outcome
	for k, o := range outs {
		if o.kind != "return" {
			r = append(r, o)
			continue
		}
		ev2 := ev
		if k < len(outs)-1 {
			ev2 = ev.clone()
		}
		if x != nil {
			e.bindCall(ev2, x, o.results)
		}
		r = append(r, e.instrs(fr, b, i+1, ev2, o.st, loops)...)
	}
	return r
}

func (e *Engine) runDefers(fr *frame, st *State) []*outcome {
	outs := []*outcome{{kind: "return", st: st}}
	for {
		again := false
		var next []*outcome
		for _, o := range outs {
			if o.kind != "return" {
				next = append(next, o)
				continue
			}
			k := -1
			for i := len(o.st.defers) - 1; i >= 0; i-- {
				if o.st.defers[i].frame == fr.id {
					k = i
					break
				}
			}
			if k < 0 {
				next = append(next, o)
				continue
			}
			again = true
			d := o.st.defers[k]
			nd := append([]deferRec{}, o.st.defers[:k]...)
			o.st.defers = append(nd, o.st.defers[k+1:]...)
			next = append(next, e.callInstr(fr, d.in, d.in.Common(), d.fn, d.args, o.st)...)
		}
		outs = next
		if !again {
			return outs
		}
	}
}

func (e *Engine) callArgs(fr *frame, c *ssa.CallCommon, ev env) []*Term {
	var args []*Term
	if c.IsInvoke() {
		args = append(args, e.val(fr, c.Value, ev))
	}
	for _, a := range c.Args {
		args = append(args, e.val(fr, a, ev))
	}
	return args
}

func (e *Engine) goStmt(fr *frame, x *ssa.Go, ev env, st *State) {
	args := e.callArgs(fr, x.Common(), ev)
	var fnT *Term
	if !x.Common().IsInvoke() {
		fnT = e.val(fr, x.Common().Value, ev)
	}
	sub := st.clone()
	sub.ev = nil
	base := len(st.facts)
	outs := e.callInstr(fr, x, x.Common(), fnT, args, sub)
	evn := &Event{Kind: "go", Pos: x.Pos(), Stack: fr.stack, NFacts: base, Args: args, Bodies: e.toPaths(outs, base), InFn: fr.fn, Call: x}
	st.push(evn)
}

// async analyses a closure handed to something that runs it in another goroutine.
func (e *Engine) async(fr *frame, in ssa.CallInstruction, fnT *Term, name string, args []*Term, st *State) {
	sub := st.clone()
	sub.ev = nil
	base := len(st.facts)
	outs := e.callTerm(fr, in, fnT, nil, sub)
	st.push(&Event{Kind: "go", Fn: name, Args: args, Pos: in.Pos(), Stack: fr.stack, NFacts: base, Bodies: e.toPaths(outs, base), InFn: fr.fn, Call: in})
}

// callTerm calls a function value if it can be resolved, otherwise records an unknown call.
func (e *Engine) callTerm(fr *frame, in ssa.CallInstruction, fnT *Term, args []*Term, st *State) []*outcome {
	fn, bind := e.resolve(fnT)
	if fn != nil && e.inlinable(fn, fr) {
		return e.call(fn, args, bind, st, fr)
	}
	nm := "dyn"
	if fn != nil {
		nm = e.p.funcName(fn)
	}
	st.push(&Event{Kind: "call", Fn: nm, Args: append([]*Term{fnT}, args...), Pos: in.Pos(), Stack: fr.stack, NFacts: len(st.facts), InFn: fr.fn, Call: in})
	return []*outcome{{kind: "return", st: st}}
}

func (e *Engine) resolve(t *Term) (*ssa.Function, []*Term) {
	for t != nil && (t.Op == "iface" || t.Op == "conv") {
		t = t.Args[0]
	}
	if t == nil {
		return nil, nil
	}
	switch t.Op {
	case "func":
		return t.Obj.(*ssa.Function), nil
	case "closure":
		return t.Obj.(*ssa.Function), t.Args
	}
	return nil, nil
}

func (e *Engine) inlinable(fn *ssa.Function, fr *frame) bool {
	if fn.Blocks == nil {
		return false
	}
	if e.noInline != nil && e.noInline(fn) {
		return false
	}
	if fr != nil {
		if fr.depth > 24 {
			return false
		}
		nm := e.p.funcName(fn)
		for _, s := range fr.stack {
			if s == nm && fn.Synthetic == "" {
				return false // recursion
			}
		}
	}
	return true
}

func (e *Engine) selectInstr(fr *frame, x *ssa.Select, b *ssa.BasicBlock, i int, ev env, st *State, loops []*loopCtx) []*outcome {
	var r []*outcome
	n := len(x.States)
	// recv results layout: index, recvOk, r0, r1...
	var args []*Term
	for _, s := range x.States {
		args = append(args, e.val(fr, s.Chan, ev))
	}
	last := n
	if !x.Blocking {
		last = n + 1
	}
	for k := 0; k < last; k++ {
		st2 := st.clone()
		ev2 := ev.clone()
		idx := k
		if k == n {
			idx = -1
		}
		res := []*Term{e.tt.intc(int64(idx)), nil}
		okT := e.tt.mk("recvok", "#"+e.newUID(), types.Typ[types.Bool])
		res[1] = okT
		var got *Term
		for j, s := range x.States {
			if s.Dir == types.RecvOnly {
				v := e.tt.mk("recv", "#"+e.newUID(), s.Chan.Type().Underlying().(*types.Chan).Elem(), args[j])
				if j == k {
					got = v
				}
				res = append(res, v)
			}
		}
		evn := &Event{Kind: "select", Args: args, Res: got, Pos: x.Pos(), Stack: fr.stack, NFacts: len(st2.facts), InFn: fr.fn}
		if k < n {
			if x.States[k].Dir == types.SendOnly {
				evn.Extra = "send"
				evn.Args = append(append([]*Term{}, args...), e.deep(e.val(fr, x.States[k].Send, ev), st2))
			} else {
				evn.Extra = "recv"
			}
			evn.Fn = fmt.Sprint(k)
		} else {
			evn.Fn = "default"
		}
		if x.Blocking {
			evn.Pure = false
		} else {
			evn.Extra += "/nonblocking"
		}
		st2.push(evn)
		ev2[x] = e.tt.mk("tuple", "", x.Type(), res...)
		r = append(r, e.instrs(fr, b, i+1, ev2, st2, loops)...)
	}
	return r
}

// val returns the term of an SSA value.
func (e *Engine) val(fr *frame, v ssa.Value, ev env) *Term {
	if t, ok := ev[v]; ok {
		return t
	}
	switch x := v.(type) {
	case *ssa.Const:
		return e.constTerm(x)
	case *ssa.Global:
		return e.tt.mk("global", e.p.pkgName(x.Pkg.Pkg)+"."+x.Name(), x.Type())
	case *ssa.Function:
		t := e.tt.mk("func", fmt.Sprintf("%s@%p", e.p.funcName(x), x), x.Type())
		t.Obj = x
		return t
	case *ssa.Builtin:
		return e.tt.mk("builtin", x.Name(), nil)
	}
	e.fail(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, e.p.funcName(fr.fn)))
	return nil
}

func (e *Engine) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	return e.tt.constant(c.Value, c.Type())
}

func (e *Engine) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.tt.constant(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return e.tt.constant(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return e.tt.constant(constant.MakeInt64(0), t)
		}
		return e.tt.nilc()
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return e.tt.nilc()
	}
	return e.tt.mk("zero", types.TypeString(t, e.p.qual), t)
}

// ---- memory ----

func (e *Engine) faddr(base *Term, T types.Type, idx int) *Term {
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return e.tt.mk("faddr", fmt.Sprint(idx), nil, base)
	}
	f := st.Field(idx)
	return e.tt.mk("faddr", f.Name(), types.NewPointer(f.Type()), base)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Engine) aggregate(st *State, addr *Term) *Term {
	if v, ok := st.mem[addr]; ok {
		return v
	}
	switch addr.Op {
	case "faddr":
		if b := e.aggregate(st, addr.Args[0]); b != nil {
			return e.fieldOf(b, addr.Sym, deref(typOr(addr)))
		}
	case "iaddr":
		if b := e.aggregate(st, addr.Args[0]); b != nil {
			return e.indexOf(b, addr.Args[1], deref(typOr(addr)))
		}
	}
	return nil
}

func typOr(t *Term) types.Type {
	if t.Typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.Typ
}

func (e *Engine) hasSub(st *State, addr *Term) bool {
	for k := range st.mem {
		for a := k; a != nil && (a.Op == "faddr" || a.Op == "iaddr"); {
			a = a.Args[0]
			if a == addr {
				return true
			}
		}
	}
	return false
}

func (e *Engine) load(st *State, addr *Term, T types.Type) *Term {
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if su, ok := T.Underlying().(*types.Struct); ok && e.hasSub(st, addr) {
		var fs []*Term
		for i := 0; i < su.NumFields(); i++ {
			fs = append(fs, e.load(st, e.faddr(addr, T, i), su.Field(i).Type()))
		}
		return e.mkStruct(T, fs)
	}
	if au, ok := T.Underlying().(*types.Array); ok && e.hasSub(st, addr) && au.Len() <= 64 {
		var fs []*Term
		for i := int64(0); i < au.Len(); i++ {
			fs = append(fs, e.load(st, e.tt.mk("iaddr", "", types.NewPointer(au.Elem()), addr, e.tt.intc(i)), au.Elem()))
		}
		return e.tt.mk("array", types.TypeString(T, e.p.qual), T, fs...)
	}
	if v := e.aggregate(st, addr); v != nil {
		return v
	}
	if _, ok := T.Underlying().(*types.Array); ok && e.hasSeg(st, addr) {
		return e.arrayOf(st, addr, T)
	}
	if addr.Op == "iaddr" && e.hasSeg(st, addr.Args[0]) && addr.Args[0].Op == "alloc" {
		if at, ok := deref(typOr(addr.Args[0])).Underlying().(*types.Array); ok {
			return e.indexOf(e.arrayOf(st, addr.Args[0], at), addr.Args[1], T)
		}
	}
	// default contents
	root := addr
	for root.Op == "faddr" || root.Op == "iaddr" {
		root = root.Args[0]
	}
	switch {
	case root.Op == "alloc":
		return e.zero(T)
	case addr.Op == "iaddr":
		return e.indexOf(addr.Args[0], addr.Args[1], T)
	case addr.Op == "faddr" && addr.Args[0].Op == "iaddr":
		// an element whose other fields were assigned still has its original value in this one
		ia := addr.Args[0]
		return e.fieldOf(e.indexOf(ia.Args[0], ia.Args[1], deref(typOr(ia))), addr.Sym, T)
	}
	return e.tt.mk("load", "", T, addr)
}

// hasSeg: bytes were copied into the array at the address.
func (e *Engine) hasSeg(st *State, addr *Term) bool {
	for k := range st.mem {
		if k.Op == "seg" && k.Args[0] == addr {
			return true
		}
	}
	return false
}

// arrayOf is the value of an array into which bytes were copied.
func (e *Engine) arrayOf(st *State, addr *Term, T types.Type) *Term {
	b := e.bytesOf(addr, st)
	if b == addr {
		return e.tt.mk("arrayof", "?#"+e.newUID(), T)
	}
	return e.tt.mk("arrayof", "", T, b)
}

func (e *Engine) mkStruct(T types.Type, fs []*Term) *Term {
	// all fields of one value: that value
	if len(fs) > 0 && fs[0].Op == "field" {
		b := fs[0].Args[0]
		su := T.Underlying().(*types.Struct)
		same := b.Typ != nil && types.Identical(b.Typ, T)
		for i, f := range fs {
			if f.Op != "field" || f.Args[0] != b || f.Sym != su.Field(i).Name() {
				same = false
				break
			}
		}
		if same {
			return b
		}
	}
	return e.tt.mk("struct", types.TypeString(T, e.p.qual), T, fs...)
}

func (e *Engine) fieldOf(v *Term, name string, T types.Type) *Term {
	switch v.Op {
	case "struct":
		su := v.Typ.Underlying().(*types.Struct)
		for i := 0; i < su.NumFields(); i++ {
			if su.Field(i).Name() == name {
				return v.Args[i]
			}
		}
	case "zero":
		if su, ok := v.Typ.Underlying().(*types.Struct); ok {
			for i := 0; i < su.NumFields(); i++ {
				if su.Field(i).Name() == name {
					return e.zero(su.Field(i).Type())
				}
			}
		}
	}
	return e.tt.mk("field", name, T, v)
}

func (e *Engine) indexOf(v, i *Term, T types.Type) *Term {
	if v.Op == "array" {
		if n, ok := i.int64(); ok && n >= 0 && int(n) < len(v.Args) {
			return v.Args[n]
		}
	}
	if v.Op == "zero" && v.Typ != nil {
		if a, ok := v.Typ.Underlying().(*types.Array); ok {
			return e.zero(a.Elem())
		}
	}
	return e.tt.mk("index", "", T, v, i)
}

func isAddrOf(k, addr *Term) bool {
	for a := k; a != nil && (a.Op == "faddr" || a.Op == "iaddr"); {
		a = a.Args[0]
		if a == addr {
			return true
		}
	}
	return false
}

func rootOf(a *Term) *Term {
	for a != nil && (a.Op == "faddr" || a.Op == "iaddr") {
		a = a.Args[0]
	}
	return a
}

func (e *Engine) store(st *State, addr, v *Term) {
	st.own()
	for k := range st.mem {
		if isAddrOf(k, addr) {
			delete(st.mem, k)
		}
	}
	// expand aggregates stored at ancestors
	e.expand(st, addr)
	// weak update of possibly aliasing locations: same field reached through a different base
	if addr.Op == "faddr" && rootOf(addr).Op != "alloc" {
		for k := range st.mem {
			if k != addr && k.Op == "faddr" && k.Sym == addr.Sym && rootOf(k).Op != "alloc" && k.Args[0] != addr.Args[0] &&
				sameBaseType(k, addr) {
				st.mem[k] = e.tt.mk("havoc", "alias#"+e.newUID(), nil, k)
			}
		}
	}
	if addr.Op == "iaddr" {
		// unknown index may overlap any other element
		if _, c := addr.Args[1].int64(); !c {
			for k := range st.mem {
				if k != addr && k.Op == "iaddr" && k.Args[0] == addr.Args[0] {
					st.mem[k] = e.tt.mk("havoc", "idx#"+e.newUID(), nil, k)
				}
			}
		}
	}
	st.mem[addr] = v
}

func sameBaseType(a, b *Term) bool {
	ta, tb := a.Typ, b.Typ
	return ta == nil || tb == nil || types.Identical(ta, tb)
}

func (e *Engine) expand(st *State, addr *Term) {
	if addr.Op != "faddr" {
		return
	}
	base := addr.Args[0]
	e.expand(st, base)
	v, ok := st.mem[base]
	if !ok {
		return
	}
	T := v.Typ
	if bt := base.Typ; bt != nil {
		T = deref(bt)
	}
	if T == nil {
		return
	}
	su, ok := T.Underlying().(*types.Struct)
	if !ok {
		return
	}
	delete(st.mem, base)
	for i := 0; i < su.NumFields(); i++ {
		st.mem[e.faddr(base, T, i)] = e.fieldOf(v, su.Field(i).Name(), su.Field(i).Type())
	}
}

// ---- simple instructions ----

func (e *Engine) simple(fr *frame, in ssa.Instruction, ev env, st *State) ([]*outcome, bool) {
	switch x := in.(type) {
	case *ssa.Alloc:
		a := e.tt.mk("alloc", x.Comment+"#"+e.newUID(), x.Type())
		ev[x] = a
	case *ssa.UnOp:
		v := e.val(fr, x.X, ev)
		switch x.Op {
		case token.MUL:
			ev[x] = e.load(st, v, x.Type())
			e.access(fr, st, "load", v, x.Pos())
		case token.NOT:
			ev[x] = e.not(v)
		case token.ARROW:
			r := e.tt.mk("recv", "#"+e.newUID(), x.Type(), v)
			st.push(&Event{Kind: "recv", Args: []*Term{v}, Res: r, Pos: x.Pos(), Stack: fr.stack, NFacts: len(st.facts), InFn: fr.fn})
			if x.CommaOk {
				ev[x] = e.tt.mk("tuple", "", x.Type(), r, e.tt.mk("recvok", "#"+e.newUID(), types.Typ[types.Bool]))
			} else {
				ev[x] = r
			}
		case token.SUB:
			ev[x] = e.neg(v)
		default:
			ev[x] = e.tt.mk("un", x.Op.String(), x.Type(), v)
		}
	case *ssa.BinOp:
		if (x.Op == token.QUO || x.Op == token.REM) && isIntType(x.Type()) {
			if d := e.val(fr, x.Y, ev); !d.isConst() {
				st.push(&Event{Kind: "div", Args: []*Term{d}, Pos: x.Pos(), Stack: fr.stack, NFacts: len(st.facts), InFn: fr.fn, Pure: true})
			}
		}
		ev[x] = e.binop(x.Op, e.val(fr, x.X, ev), e.val(fr, x.Y, ev), x.Type())
	case *ssa.ChangeInterface:
		ev[x] = e.val(fr, x.X, ev)
	case *ssa.ChangeType:
		ev[x] = e.val(fr, x.X, ev)
	case *ssa.Convert:
		v := e.val(fr, x.X, ev)
		if t, ok := x.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsString != 0 && isByteSlice(x.X.Type()) {
			if b := e.bytesOf(v, st); b != nil && (b.Op == "cat" || b.Op == "byte") {
				v = b
			}
		}
		ev[x] = e.convert(v, x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		ev[x] = e.tt.mk("conv", types.TypeString(x.Type(), e.p.qual), x.Type(), e.val(fr, x.X, ev))
	case *ssa.MakeInterface:
		ev[x] = e.tt.mk("iface", types.TypeString(x.X.Type(), e.p.qual), x.X.Type(), e.val(fr, x.X, ev))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(fr, b, ev))
		}
		f := x.Fn.(*ssa.Function)
		t := e.tt.mk("closure", fmt.Sprintf("%s@%p", e.p.funcName(f), f), x.Type(), bs...)
		t.Obj = f
		ev[x] = t
	case *ssa.MakeMap:
		ev[x] = e.tt.mk("mkmap", "#"+e.newUID(), x.Type())
	case *ssa.MakeChan:
		ev[x] = e.tt.mk("mkchan", "#"+e.newUID(), x.Type(), e.val(fr, x.Size, ev))
	case *ssa.MakeSlice:
		ln, cp := e.val(fr, x.Len, ev), e.val(fr, x.Cap, ev)
		t := e.tt.mk("mkslice", "#"+e.newUID(), x.Type(), ln, cp)
		st.push(&Event{Kind: "make", Args: []*Term{ln, cp}, Res: t, Pos: x.Pos(), Stack: fr.stack, NFacts: len(st.facts), InFn: fr.fn})
		ev[x] = t
	case *ssa.Slice:
		ev[x] = e.slice(fr, x, ev, st)
	case *ssa.SliceToArrayPointer:
		ev[x] = e.tt.mk("conv", types.TypeString(x.Type(), e.p.qual), x.Type(), e.val(fr, x.X, ev))
	case *ssa.FieldAddr:
		b := e.val(fr, x.X, ev)
		ev[x] = e.faddr(b, deref(x.X.Type()), x.Field)
	case *ssa.Field:
		v := e.val(fr, x.X, ev)
		su := x.X.Type().Underlying().(*types.Struct)
		ev[x] = e.fieldOf(v, su.Field(x.Field).Name(), x.Type())
	case *ssa.IndexAddr:
		b := e.val(fr, x.X, ev)
		i := e.val(fr, x.Index, ev)
		e.bounds(fr, st, b, i, x.X.Type(), x.Pos())
		base := e.sliceBase(b)
		if v, ok := st.mem[e.tt.mk("sortver", "", nil, base)]; ok {
			base = v // the elements have been rearranged
		}
		ev[x] = e.tt.mk("iaddr", "", x.Type(), base, e.idxBase(b, i))
	case *ssa.Index:
		b := e.val(fr, x.X, ev)
		i := e.val(fr, x.Index, ev)
		e.bounds(fr, st, b, i, x.X.Type(), x.Pos())
		ev[x] = e.indexOf(b, i, x.Type())
	case *ssa.Lookup:
		m, k := e.val(fr, x.X, ev), e.val(fr, x.Index, ev)
		if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
			e.bounds(fr, st, m, k, x.X.Type(), x.Pos())
			ev[x] = e.indexOf(m, k, x.Type())
			break
		}
		e.access(fr, st, "maplookup", m, x.Pos())
		v, ok := e.mapGet(st, m, k, x.X.Type().Underlying().(*types.Map).Elem())
		if x.CommaOk {
			ev[x] = e.tt.mk("tuple", "", x.Type(), v, ok)
		} else {
			ev[x] = v
		}
	case *ssa.Range:
		v := e.val(fr, x.X, ev)
		e.access(fr, st, "maprange", v, x.Pos())
		ev[x] = e.tt.mk("range", "#"+e.newUID(), nil, v)
	case *ssa.Next:
		r := e.val(fr, x.Iter, ev)
		u := e.newUID()
		k := e.tt.mk("mapkey", "#"+u, nil, r.Args[0])
		v := e.tt.mk("mapval", "#"+u, nil, r.Args[0])
		if e.rangeVer == nil {
			e.rangeVer = map[string]*Term{}
		}
		e.rangeVer["#"+u] = e.mapVer(st, r.Args[0])
		ok := e.tt.mk("more", "#"+u, types.Typ[types.Bool], r)
		ev[x] = e.tt.mk("tuple", "", x.Type(), ok, k, v)
	case *ssa.TypeAssert:
		v := e.val(fr, x.X, ev)
		tn := types.TypeString(x.AssertedType, e.p.qual)
		var res *Term
		is := e.tt.mk("istype", tn, types.Typ[types.Bool], v)
		is.Obj = x.AssertedType
		if v.Op == "iface" && types.Identical(v.Typ, x.AssertedType) {
			res = v.Args[0]
			is = e.tt.boolc(true)
		} else if v.Op == "iface" && !types.IsInterface(x.AssertedType) {
			res = e.zero(x.AssertedType)
			is = e.tt.boolc(false)
		} else {
			res = e.tt.mk("typeassert", tn, x.AssertedType, v)
		}
		if x.CommaOk {
			ev[x] = e.tt.mk("tuple", "", x.Type(), res, is)
		} else {
			st.push(&Event{Kind: "assert", Args: []*Term{v, is}, Fn: tn, Pos: x.Pos(), Stack: fr.stack, NFacts: len(st.facts), InFn: fr.fn})
			ev[x] = res
		}
	case *ssa.Extract:
		t := e.val(fr, x.Tuple, ev)
		ev[x] = e.extract(t, x.Index, x.Type())
	case *ssa.MapUpdate:
		m, k, v := e.val(fr, x.Map, ev), e.val(fr, x.Key, ev), e.val(fr, x.Value, ev)
		e.mapSet(st, m, k, v)
		st.push(&Event{Kind: "mapset", Args: []*Term{m, k, e.deep(v, st)}, Pos: x.Pos(), Stack: fr.stack, NFacts: len(st.facts), InFn: fr.fn})
	case *ssa.Send:
		c, v := e.val(fr, x.Chan, ev), e.val(fr, x.X, ev)
		st.push(&Event{Kind: "send", Args: []*Term{c, e.deep(v, st)}, Pos: x.Pos(), Stack: fr.stack, NFacts: len(st.facts), InFn: fr.fn})
	case *ssa.Store:
		a, v := e.val(fr, x.Addr, ev), e.val(fr, x.Val, ev)
		e.store(st, a, v)
		if rt := rootOf(a); rt.Op != "alloc" && rt.Op != "mkslice" {
			ev := &Event{Kind: "store", Args: []*Term{a, e.deep(v, st)}, Pos: x.Pos(), Stack: fr.stack, NFacts: len(st.facts), InFn: fr.fn}
			if u := unface(v); u.Op == "alloc" {
				ev.Vals = []*Term{nil, e.inside(v, st)}
			}
			st.push(ev)
		}
	default:
		e.fail(fmt.Sprintf("unsupported instruction %T in %s", in, e.p.funcName(fr.fn)))
	}
	return nil, false
}

// access records reads of shared (parameter or global rooted) locations.
func (e *Engine) access(fr *frame, st *State, what string, addr *Term, pos token.Pos) {
	rt := rootOf(addr)
	if rt.Op == "alloc" || rt.Op == "mkslice" || rt.Op == "mkmap" {
		return
	}
	st.push(&Event{Kind: "access", Fn: what, Args: []*Term{addr}, Pos: pos, Stack: fr.stack, NFacts: len(st.facts), InFn: fr.fn})
}

func (e *Engine) bounds(fr *frame, st *State, b, i *Term, T types.Type, pos token.Pos) {
	st.push(&Event{Kind: "bounds", Args: []*Term{b, i}, Pos: pos, Stack: fr.stack, NFacts: len(st.facts), InFn: fr.fn,
		Extra: types.TypeString(T, e.p.qual), Res: e.lenOf(b, T, st)})
}

func (e *Engine) sliceBase(b *Term) *Term {
	if b.Op == "slice" {
		if n, ok := b.Args[1].int64(); ok && n == 0 {
			return b.Args[0]
		}
		if _, ok := b.Args[1].int64(); ok {
			return b.Args[0]
		}
	}
	return b
}

func (e *Engine) idxBase(b, i *Term) *Term {
	if b.Op == "slice" {
		if n, ok := b.Args[1].int64(); ok && n != 0 {
			if k, ok2 := i.int64(); ok2 {
				return e.tt.intc(n + k)
			}
			return e.binop(token.ADD, i, e.tt.intc(n), types.Typ[types.Int])
		}
	}
	if k, ok := i.int64(); ok {
		return e.tt.intc(k)
	}
	return i
}

func (e *Engine) slice(fr *frame, x *ssa.Slice, ev env, st *State) *Term {
	b := e.val(fr, x.X, ev)
	lo := e.tt.intc(0)
	if x.Low != nil {
		lo = e.val(fr, x.Low, ev)
		if n, ok := lo.int64(); ok {
			lo = e.tt.intc(n)
		}
	}
	var hi *Term
	if x.High != nil {
		hi = e.val(fr, x.High, ev)
		if n, ok := hi.int64(); ok {
			hi = e.tt.intc(n)
		}
	}
	if x.Low != nil || x.High != nil {
		st.push(&Event{Kind: "slicebounds", Args: []*Term{b, lo, hi}, Pos: x.Pos(), Stack: fr.stack, NFacts: len(st.facts), InFn: fr.fn,
			Res: e.lenOf(b, x.X.Type(), st)})
	}
	if hi == nil {
		if n, ok := lo.int64(); ok && n == 0 && b.Op != "alloc" && !isArrayPtr(x.X.Type()) {
			return b // x[:] of a slice or string
		}
		if isArrayPtr(x.X.Type()) {
			hi = e.tt.intc(deref(x.X.Type()).Underlying().(*types.Array).Len())
		} else {
			hi = e.tt.nilc()
		}
	}
	if b.Op == "slice" {
		if n, ok := b.Args[1].int64(); ok {
			if m, ok2 := lo.int64(); ok2 {
				lo = e.tt.intc(n + m)
				if k, ok3 := hi.int64(); ok3 {
					hi = e.tt.intc(n + k)
				} else if hi.Op == "nil" {
					hi = b.Args[2]
				}
				b = b.Args[0]
			}
		}
	}
	return e.tt.mk("slice", "", x.Type(), b, lo, hi)
}

func isArrayPtr(t types.Type) bool {
	_, ok := deref(t).Underlying().(*types.Array)
	_, p := t.Underlying().(*types.Pointer)
	return ok && p
}

func (e *Engine) extract(t *Term, i int, T types.Type) *Term {
	if t.Op == "tuple" && i < len(t.Args) {
		return t.Args[i]
	}
	return e.tt.mk("ext", fmt.Sprint(i), T, t)
}

func (e *Engine) mapVer(st *State, m *Term) *Term {
	c := e.tt.mk("mapver", "", nil, m)
	if v, ok := st.mem[c]; ok {
		return v
	}
	return nil
}

func (e *Engine) mapGet(st *State, m, k *Term, T types.Type) (*Term, *Term) {
	c := e.tt.mk("mapcell", "", nil, m, k)
	if v, ok := st.mem[c]; ok {
		if v.Op == "deleted" {
			return e.zero(T), e.tt.boolc(false)
		}
		if v.Op != "havoc" {
			return v, e.tt.boolc(true)
		}
	}
	ver := e.mapVer(st, m)
	if k.Op == "mapkey" && len(k.Args) == 1 && k.Args[0] == m && (ver == nil || ver == e.rangeVer[k.Sym]) {
		// the value at the key the iteration stands at
		return e.tt.mk("mapval", k.Sym, nil, m), e.tt.boolc(true)
	}
	if m.Op == "nil" || (m.Op == "mkmap" && ver == nil) {
		return e.zero(T), e.tt.boolc(false)
	}
	var val *Term
	if ver == nil {
		val = e.tt.mk("lookup", "", T, m, k)
	} else {
		val = e.tt.mk("lookup", "", T, m, k, ver)
	}
	ok := e.tt.mk("has", "", types.Typ[types.Bool], val.Args...)
	return val, ok
}

func (e *Engine) mapSet(st *State, m, k, v *Term) {
	e.mapInvalidate(st, m, k)
	st.set(e.tt.mk("mapcell", "", nil, m, k), v)
}

func (e *Engine) mapInvalidate(st *State, m, k *Term) {
	st.own()
	for c := range st.mem {
		if c.Op == "mapcell" && c.Args[0] == m && c.Args[1] != k {
			delete(st.mem, c)
		}
	}
	st.mem[e.tt.mk("mapver", "", nil, m)] = e.tt.mk("ver", "#"+e.newUID(), nil)
}

func (e *Engine) mapDel(st *State, m, k *Term) {
	e.mapInvalidate(st, m, k)
	st.set(e.tt.mk("mapcell", "", nil, m, k), e.tt.mk("deleted", "", nil))
}

func (e *Engine) convert(v *Term, from, to types.Type) *Term {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if v.isConst() && ok1 && ok2 {
		if tb.Info()&types.IsInteger != 0 && v.Cval.Kind() == constant.Int {
			if i, exact := constant.Int64Val(v.Cval); exact {
				if tb.Info()&types.IsUnsigned == 0 || i >= 0 {
					return e.tt.constant(v.Cval, to)
				}
			} else if tb.Info()&types.IsUnsigned != 0 && constant.Sign(v.Cval) >= 0 {
				return e.tt.constant(v.Cval, to)
			}
		}
		if tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsNumeric != 0 {
			return e.tt.constant(v.Cval, to)
		}
	}
	op := "conv"
	if ok1 && ok2 && fb.Info()&tb.Info()&types.IsInteger != 0 && sizeOf(to) < sizeOf(from) {
		op = "narrow" // may lose the value
	}
	return e.tt.mk(op, types.TypeString(to, e.p.qual), to, v)
}
