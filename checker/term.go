package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"
)

// Term is a hash-consed value number: two values with the same Term are equal on every run that
// follows the analysed path.
type Term struct {
	Op   string
	Sym  string
	Args []*Term
	Typ  types.Type
	Cval constant.Value // for Op=="const"
	ID   int
	Obj  any // function object, type, etc.
}

type TermTable struct {
	m map[string]*Term
	n int
}

func newTermTable() *TermTable { return &TermTable{m: map[string]*Term{}} }

func (tt *TermTable) mk(op, sym string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(sym)
	for _, a := range args {
		sb.WriteByte('|')
		if a == nil {
			sb.WriteByte('-')
			continue
		}
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	tt.n++
	t := &Term{Op: op, Sym: sym, Args: args, Typ: typ, ID: tt.n}
	tt.m[k] = t
	return t
}

func (tt *TermTable) constant(v constant.Value, typ types.Type) *Term {
	k := "num"
	switch v.Kind() {
	case constant.Bool:
		k = "bool"
	case constant.String:
		k = "str"
	}
	if v.Kind() == constant.Float {
		if iv := constant.ToInt(v); iv.Kind() == constant.Int {
			v = iv
		}
	}
	t := tt.mk("const", k+":"+v.ExactString(), typ)
	t.Cval = v
	return t
}

func (tt *TermTable) intc(n int64) *Term {
	return tt.constant(constant.MakeInt64(n), types.Typ[types.Int])
}

func (tt *TermTable) boolc(b bool) *Term {
	return tt.constant(constant.MakeBool(b), types.Typ[types.Bool])
}

func (tt *TermTable) nilc() *Term { return tt.mk("nil", "", types.Typ[types.UntypedNil]) }

func (t *Term) isConst() bool { return t != nil && t.Op == "const" }

func (t *Term) int64() (int64, bool) {
	if t == nil || t.Op != "const" || t.Cval.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.Cval)
}

func (t *Term) boolVal() (bool, bool) {
	if t == nil || t.Op != "const" || t.Cval.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(t.Cval), true
}

func (t *Term) strVal() (string, bool) {
	if t == nil || t.Op != "const" || t.Cval.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(t.Cval), true
}

func (t *Term) is(op, sym string) bool { return t != nil && t.Op == op && t.Sym == sym }

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 8 {
		return "…"
	}
	args := func() string {
		var p []string
		for _, a := range t.Args {
			p = append(p, a.str(d+1))
		}
		return strings.Join(p, ", ")
	}
	switch t.Op {
	case "ucall":
		if i := strings.LastIndex(t.Sym, "#"); i > 0 {
			n := t.Sym[:i]
			if n == "(*leveldb.DB).GetSnapshot" {
				return "snap" + t.Sym[i:]
			}
			return n[strings.LastIndex(n, ".")+1:] + t.Sym[i:] + "(" + args() + ")"
		}
	case "const":
		s := t.Cval.String()
		if len(s) > 40 {
			s = s[:40] + "…"
		}
		return s
	case "nil":
		return "nil"
	case "param":
		return t.Sym
	case "global":
		return "&" + t.Sym
	case "load":
		a := t.Args[0]
		if a.Op == "faddr" {
			return a.Args[0].str(d+1) + "." + a.Sym
		}
		if a.Op == "global" {
			return a.Sym
		}
		return "*" + a.str(d+1)
	case "faddr":
		return "&" + t.Args[0].str(d+1) + "." + t.Sym
	case "iaddr":
		return "&" + t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case "index":
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case "field":
		return t.Args[0].str(d+1) + "." + t.Sym
	case "ext":
		return t.Args[0].str(d+1) + "#" + t.Sym
	case "eq":
		return "(" + t.Args[0].str(d+1) + " == " + t.Args[1].str(d+1) + ")"
	case "lt":
		return "(" + t.Args[0].str(d+1) + " < " + t.Args[1].str(d+1) + ")"
	case "not":
		return "!" + t.Args[0].str(d+1)
	case "bin":
		return "(" + t.Args[0].str(d+1) + " " + t.Sym + " " + t.Args[1].str(d+1) + ")"
	case "call":
		return t.Sym + "(" + args() + ")"
	case "conv":
		return t.Sym + "(" + args() + ")"
	case "iface":
		return t.Args[0].str(d)
	}
	if len(t.Args) == 0 {
		return t.Op + ":" + t.Sym
	}
	return fmt.Sprintf("%s:%s(%s)", t.Op, t.Sym, args())
}

// contains reports whether t has u as a subterm.
func (t *Term) contains(u *Term) bool {
	if t == nil {
		return false
	}
	if t == u {
		return true
	}
	for _, a := range t.Args {
		if a.contains(u) {
			return true
		}
	}
	return false
}

// any reports whether some subterm satisfies f.
func (t *Term) any(f func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if a.any(f) {
			return true
		}
	}
	return false
}

// strip removes interface wrapping and integer/string conversions.
func strip(t *Term) *Term {
	for t != nil && (t.Op == "iface" || t.Op == "conv") {
		t = t.Args[0]
	}
	return t
}

func unface(t *Term) *Term {
	for t != nil && t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}
