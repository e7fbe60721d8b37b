package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

func (e *Engine) not(t *Term) *Term {
	if t.Op == "not" {
		return t.Args[0]
	}
	if b, ok := t.boolVal(); ok {
		return e.tt.boolc(!b)
	}
	return e.tt.mk("not", "", types.Typ[types.Bool], t)
}

func (e *Engine) neg(t *Term) *Term {
	if t.Op == "neg" {
		return t.Args[0]
	}
	if t.isConst() && t.Cval.Kind() == constant.Int {
		return e.tt.constant(constant.UnaryOp(token.SUB, t.Cval, 0), t.Typ)
	}
	return e.tt.mk("neg", "", t.Typ, t)
}

// nonNeg reports whether an integer term can never be negative.
func (e *Engine) nonNeg(t *Term) bool {
	if t.Op == "len" || t.Op == "cap" || t.Op == "iter" {
		return true
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	}
	if n, ok := t.int64(); ok {
		return n >= 0
	}
	return false
}

func cmpLike(t *Term) bool { return t.Op == "cmp" }

func (e *Engine) eq(a, b *Term) *Term {
	if a == b {
		if a.Op != "const" || a.Cval.Kind() != constant.Float {
			return e.tt.boolc(true)
		}
	}
	// Canonical order: constants and nil on the right, otherwise by identity.
	if a.isConst() || a.Op == "nil" || (!b.isConst() && b.Op != "nil" && a.ID > b.ID) {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		if a.Cval.Kind() == b.Cval.Kind() {
			return e.tt.boolc(constant.Compare(a.Cval, token.EQL, b.Cval))
		}
	}
	if b.Op == "nil" && e.nonNil(a) {
		return e.tt.boolc(false)
	}
	if b.Op == "nil" && a.Op == "nil" {
		return e.tt.boolc(true)
	}
	// bool == const
	if v, ok := b.boolVal(); ok {
		if v {
			return a
		}
		return e.not(a)
	}
	if a.Op == "neg" && b.isConst() {
		return e.eq(a.Args[0], e.neg(b))
	}
	if s, ok := b.strVal(); ok && s == "" {
		return e.eq(e.tt.mk("len", "", types.Typ[types.Int], a), e.tt.intc(0))
	}
	if n, ok := b.int64(); ok {
		if a.Op == "cmp" && n == 0 && a.Sym == "eq" {
			return e.eq(a.Args[0], a.Args[1])
		}
		if a.Op == "conv" && isInt(a.Args[0]) && fitsType(a.Args[0], n) && widening(a.Args[0].Typ, a.Typ) {
			return e.eq(a.Args[0], b)
		}
		b = e.tt.intc(n)
	}
	return e.tt.mk("eq", "", types.Typ[types.Bool], a, b)
}

func isInt(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func sizeOf(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func unsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// widening reports whether every value of from is represented in to.
func widening(from, to types.Type) bool {
	if from == nil || to == nil {
		return false
	}
	fs, ts := sizeOf(from), sizeOf(to)
	fu, tu := unsigned(from), unsigned(to)
	if fu == tu {
		return ts >= fs
	}
	return fu && !tu && ts > fs
}

func fitsType(t *Term, n int64) bool {
	if t.Typ == nil {
		return false
	}
	if unsigned(t.Typ) {
		if n < 0 {
			return false
		}
		s := sizeOf(t.Typ)
		return s == 64 || n < (int64(1)<<s)
	}
	return true
}

func (e *Engine) lt(a, b *Term) *Term {
	if a == b {
		return e.tt.boolc(false)
	}
	if a.isConst() && b.isConst() && a.Cval.Kind() == b.Cval.Kind() {
		return e.tt.boolc(constant.Compare(a.Cval, token.LSS, b.Cval))
	}
	if x, m := offset(a); x.Op == "len" {
		// lengths are far from overflowing
		if y, n := offset(b); x == y {
			return e.tt.boolc(m < n)
		}
	}
	if a.Op == "neg" && b.isConst() {
		return e.lt(e.neg(b), a.Args[0])
	}
	if b.Op == "neg" && a.isConst() {
		return e.lt(b.Args[0], e.neg(a))
	}
	// After(x, y) forms for durations between instants
	if n, ok := a.int64(); ok && n == 0 && b.Op == "call" && b.Sym == "(time.Time).Sub" {
		return e.tt.mk("call", "(time.Time).After", types.Typ[types.Bool], b.Args[0], b.Args[1])
	}
	if n, ok := b.int64(); ok && n == 0 && a.Op == "call" && a.Sym == "(time.Time).Sub" {
		return e.tt.mk("call", "(time.Time).After", types.Typ[types.Bool], a.Args[1], a.Args[0])
	}
	if n, ok := a.int64(); ok && e.nonNeg(b) {
		if n < 0 {
			return e.tt.boolc(true)
		}
		if n == 0 {
			return e.not(e.eq(b, a))
		}
	}
	if n, ok := b.int64(); ok && e.nonNeg(a) {
		if n <= 0 {
			return e.tt.boolc(false)
		}
		if n == 1 {
			return e.eq(a, e.tt.intc(0))
		}
	}
	if n, ok := a.int64(); ok {
		a = e.tt.intc(n)
	}
	if n, ok := b.int64(); ok {
		b = e.tt.intc(n)
	}
	return e.tt.mk("lt", "", types.Typ[types.Bool], a, b)
}

func (e *Engine) binop(op token.Token, a, b *Term, T types.Type) *Term {
	switch op {
	case token.EQL:
		return e.eq(a, b)
	case token.NEQ:
		return e.not(e.eq(a, b))
	case token.LSS:
		return e.lt(a, b)
	case token.GTR:
		return e.lt(b, a)
	case token.LEQ:
		return e.not(e.lt(b, a))
	case token.GEQ:
		return e.not(e.lt(a, b))
	}
	if a.isConst() && b.isConst() {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			return e.tt.constant(constant.BinaryOp(a.Cval, op, b.Cval), T)
		case token.QUO:
			if isIntType(T) && constant.Sign(b.Cval) != 0 {
				return e.tt.constant(constant.BinaryOp(a.Cval, token.QUO_ASSIGN, b.Cval), T)
			}
		case token.REM:
			if isIntType(T) && constant.Sign(b.Cval) != 0 {
				return e.tt.constant(constant.BinaryOp(a.Cval, op, b.Cval), T)
			}
		case token.SHL:
			if n, ok := b.int64(); ok && n >= 0 && n < 200 {
				return e.tt.constant(constant.Shift(a.Cval, op, uint(n)), T)
			}
		}
	}
	if op == token.ADD || op == token.SUB {
		// linear normal form with one constant offset
		if n, ok := b.int64(); ok && isIntType(T) {
			if op == token.SUB {
				n = -n
			}
			return e.addConst(a, n, T)
		}
		if n, ok := a.int64(); ok && op == token.ADD && isIntType(T) {
			return e.addConst(b, n, T)
		}
		if op == token.ADD && isIntType(T) && a.ID > b.ID {
			a, b = b, a
		}
	}
	if (op == token.MUL || op == token.AND || op == token.OR || op == token.XOR) && a.ID > b.ID {
		a, b = b, a
	}
	return e.tt.mk("bin", op.String(), T, a, b)
}

func isIntType(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *Engine) addConst(a *Term, n int64, T types.Type) *Term {
	if a.Op == "bin" && a.Sym == "+" {
		if m, ok := a.Args[1].int64(); ok {
			return e.addConst(a.Args[0], n+m, T)
		}
	}
	if n == 0 {
		return a
	}
	return e.tt.mk("bin", "+", T, a, e.tt.intc(n))
}

// nonNil reports whether a value is certainly not nil.
func (e *Engine) nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "closure", "func", "iface", "mkslice", "mkmap", "mkchan", "faddr", "iaddr", "global", "struct", "errorf",
		"array", "bigalloc", "nonnil":
		return true
	case "slice":
		return t.Args[0].Op == "alloc" || t.Args[0].Op == "mkslice"
	case "append":
		return len(t.Args) > 1 || e.nonNil(t.Args[0])
	case "load":
		// package level sentinel errors
		if t.Args[0].Op == "global" && t.Typ != nil && types.TypeString(t.Typ, nil) == "error" {
			return true
		}
	}
	return false
}

// makesObject lists the library calls that give an object whenever they report no error.
func makesObject(name string) bool {
	switch name {
	case "(*leveldb.DB).GetSnapshot", "leveldb.OpenFile", "net.Listen", "(*net.ListenConfig).Listen", "stateless.NewStateMachine":
		return true
	}
	return strings.HasSuffix(name, ".Accept")
}

func errNil(e *Engine, t *Term) *Term { return e.eq(t, e.tt.nilc()) }

// interval of an integer term implied by its form and the facts.
type interval struct {
	lo, hi *big.Int
	excl   map[string]bool
}

func (e *Engine) interval(st *State, t *Term) interval {
	iv := interval{excl: map[string]bool{}}
	if n, ok := t.int64(); ok {
		return interval{lo: big.NewInt(n), hi: big.NewInt(n), excl: iv.excl}
	}
	switch {
	case t.Op == "cmp":
		iv.lo, iv.hi = big.NewInt(-1), big.NewInt(1)
	case e.nonNeg(t):
		iv.lo = big.NewInt(0)
		if t.Op == "len" && t.Args[0].Op == "append" {
			in := e.interval(st, e.lenOf(t.Args[0].Args[0], nil, st))
			k := big.NewInt(int64(len(t.Args[0].Args) - 1))
			if in.lo != nil {
				k.Add(k, in.lo)
			}
			iv.lo = k
		}
	}
	for i := 0; i < 2; i++ {
		for _, f := range st.facts {
			a := f.Atom
			if a.Op == "eq" && a.Args[0] == t {
				if n, ok := a.Args[1].int64(); ok {
					b := big.NewInt(n)
					if f.Val {
						iv.lo, iv.hi = b, b
					} else {
						iv.excl[b.String()] = true
					}
				}
			}
			if a.Op == "lt" && a.Args[0] == t {
				if n, ok := a.Args[1].int64(); ok {
					if f.Val {
						iv.capHi(big.NewInt(n - 1))
					} else {
						iv.capLo(big.NewInt(n))
					}
				}
			}
			if a.Op == "lt" && a.Args[1] == t {
				if n, ok := a.Args[0].int64(); ok {
					if f.Val {
						iv.capLo(big.NewInt(n + 1))
					} else {
						iv.capHi(big.NewInt(n))
					}
				}
			}
		}
		one := big.NewInt(1)
		for iv.lo != nil && iv.excl[iv.lo.String()] && (iv.hi == nil || iv.lo.Cmp(iv.hi) <= 0) {
			iv.lo = new(big.Int).Add(iv.lo, one)
		}
		for iv.hi != nil && iv.excl[iv.hi.String()] && (iv.lo == nil || iv.lo.Cmp(iv.hi) <= 0) {
			iv.hi = new(big.Int).Sub(iv.hi, one)
		}
	}
	return iv
}

func (iv *interval) capHi(b *big.Int) {
	if iv.hi == nil || iv.hi.Cmp(b) > 0 {
		iv.hi = b
	}
}
func (iv *interval) capLo(b *big.Int) {
	if iv.lo == nil || iv.lo.Cmp(b) < 0 {
		iv.lo = b
	}
}

// eval decides a condition from the facts, if possible.
func (e *Engine) eval(st *State, c *Term) (bool, bool) {
	if v, ok := c.boolVal(); ok {
		return v, true
	}
	if c.Op == "not" {
		v, ok := e.eval(st, c.Args[0])
		return !v, ok
	}
	for i := len(st.facts) - 1; i >= 0; i-- {
		if st.facts[i].Atom == c {
			return st.facts[i].Val, true
		}
	}
	switch c.Op {
	case "eq":
		a, b := c.Args[0], c.Args[1]
		if b.Op == "nil" {
			// a call that reports no error gives the object it makes
			if a.Op == "ext" && a.Sym == "0" && a.Typ != nil && makesObject(callName(a.Args[0])) {
				for _, f := range st.facts {
					if f.Val && f.Atom.Op == "eq" && f.Atom.Args[1].Op == "nil" && f.Atom.Args[0].is("ext", "1") && f.Atom.Args[0].Args[0] == a.Args[0] {
						return false, true
					}
				}
			}
			for _, f := range st.facts {
				if f.Atom.Op == "errorsis" && f.Val && f.Atom.Args[0] == a {
					return false, true
				}
				if f.Atom.Op == "istype" && f.Val && f.Atom.Args[0] == a {
					return false, true
				}
				if f.Atom.Op == "eq" && f.Val && f.Atom.Args[0] == a && e.nonNil(f.Atom.Args[1]) {
					return false, true
				}
			}
		}
		if n, ok := b.int64(); ok {
			iv := e.interval(st, a)
			k := big.NewInt(n)
			if iv.lo != nil && k.Cmp(iv.lo) < 0 || iv.hi != nil && k.Cmp(iv.hi) > 0 || iv.excl[k.String()] {
				return false, true
			}
			if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) == 0 && iv.lo.Cmp(k) == 0 {
				return true, true
			}
		}
		if b.isConst() {
			for _, f := range st.facts {
				if f.Val && f.Atom.Op == "eq" && f.Atom.Args[0] == a && f.Atom.Args[1].isConst() && f.Atom.Args[1] != b {
					if r, ok := e.eq(f.Atom.Args[1], b).boolVal(); ok {
						return r, true
					}
				}
			}
		}
	case "lt":
		a, b := c.Args[0], c.Args[1]
		if n, ok := b.int64(); ok {
			iv := e.interval(st, a)
			k := big.NewInt(n)
			if iv.hi != nil && iv.hi.Cmp(k) < 0 {
				return true, true
			}
			if iv.lo != nil && iv.lo.Cmp(k) >= 0 {
				return false, true
			}
		}
		if n, ok := a.int64(); ok {
			iv := e.interval(st, b)
			k := big.NewInt(n)
			if iv.lo != nil && iv.lo.Cmp(k) > 0 {
				return true, true
			}
			if iv.hi != nil && iv.hi.Cmp(k) <= 0 {
				return false, true
			}
		}
		if v, ok := e.difference(st, a, b); ok {
			return v, true
		}
		// b < a known, or a == b known
		if v, ok := e.lookupFact(st, e.lt(b, a)); ok && v {
			return false, true
		}
		if v, ok := e.lookupFact(st, e.eq(a, b)); ok && v {
			return false, true
		}
	case "errorsis":
		if v, ok := e.eval(st, errNil(e, c.Args[0])); ok && v {
			return false, true
		}
	case "istype":
		for _, f := range st.facts {
			if f.Atom.Op == "istype" && f.Val && f.Atom.Args[0] == c.Args[0] && f.Atom.Sym != c.Sym &&
				!types.IsInterface(f.Atom.Obj.(types.Type)) && !types.IsInterface(c.Obj.(types.Type)) {
				return false, true
			}
		}
		if v, ok := e.lookupFact(st, errNil(e, c.Args[0])); ok && v {
			return false, true
		}
	}
	return false, false
}

// offset splits a term into a base and a constant added to it.
func offset(t *Term) (*Term, int64) {
	if t.Op == "bin" && t.Sym == "+" {
		if n, ok := t.Args[1].int64(); ok {
			return t.Args[0], n
		}
	}
	return t, 0
}

// difference decides a < b from facts about the same two quantities with other constants added to them. It is used for
// indices and lengths only, which cannot overflow.
func (e *Engine) difference(st *State, a, b *Term) (bool, bool) {
	x, cx := offset(a)
	y, cy := offset(b)
	small := func(t *Term) bool { return t.Op == "len" || t.Op == "iter" }
	if !small(x) || !small(y) {
		return false, false
	}
	k := cy - cx // x-y < k ?
	for _, f := range st.facts {
		if f.Atom.Op != "lt" && f.Atom.Op != "eq" {
			continue
		}
		p, cp := offset(f.Atom.Args[0])
		q, cq := offset(f.Atom.Args[1])
		d := cq - cp
		lo, hi := false, false // what the fact gives: x-y >= l, x-y <= h
		var l, h int64
		switch {
		case f.Atom.Op == "eq" && f.Val && p == x && q == y:
			lo, hi, l, h = true, true, d, d
		case f.Atom.Op == "eq" && f.Val && p == y && q == x:
			lo, hi, l, h = true, true, -d, -d
		case f.Atom.Op == "lt" && p == x && q == y && f.Val:
			hi, h = true, d-1
		case f.Atom.Op == "lt" && p == x && q == y:
			lo, l = true, d
		case f.Atom.Op == "lt" && p == y && q == x && f.Val:
			lo, l = true, -d+1
		case f.Atom.Op == "lt" && p == y && q == x:
			hi, h = true, -d
		}
		if hi && h < k {
			return true, true
		}
		if lo && l >= k {
			return false, true
		}
	}
	return false, false
}

func (e *Engine) lookupFact(st *State, c *Term) (bool, bool) {
	if v, ok := c.boolVal(); ok {
		return v, true
	}
	if c.Op == "not" {
		v, ok := e.lookupFact(st, c.Args[0])
		return !v, ok
	}
	for _, f := range st.facts {
		if f.Atom == c {
			return f.Val, true
		}
	}
	return false, false
}

// assume adds the outcome of a branch; it reports false if the branch is infeasible.
func (e *Engine) assume(st *State, c *Term, v bool, pos token.Pos) bool {
	for c.Op == "not" {
		c = c.Args[0]
		v = !v
	}
	if b, ok := c.boolVal(); ok {
		return b == v
	}
	st.facts = append(st.facts[:len(st.facts):len(st.facts)], Fact{c, v, pos})
	return true
}
