package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	ID    string
	Title string
	Rule  string // the rule applied, for the evidence file
	Run   func(c *Ctx)
}

type Violation struct {
	Rule      string
	Construct string
	Pos       string
	Detail    string
	Path      *Path
}

func (v Violation) Key() string { return v.Rule + " @ " + v.Construct }

// Ctx is the state of one run of one check.
type Ctx struct {
	p        *Program
	id       string
	thorough bool
	obl      map[string]int
	roots    map[string]int
	viols    map[string]Violation
	order    []string
	notes    []string
	engines  []*Engine
	cache    map[string]*rootResult
	rt       map[string][]rtRoot
	partsOf  map[string]bool
	sorters  map[*ssa.Function]bool
}

type rootResult struct {
	e     *Engine
	paths []*Path
}

func newCtx(p *Program, id string, thorough bool) *Ctx {
	return &Ctx{p: p, id: id, thorough: thorough, obl: map[string]int{}, roots: map[string]int{}, viols: map[string]Violation{},
		cache: map[string]*rootResult{}}
}

// ok counts a discharged or examined obligation of a rule.
func (c *Ctx) ok(rule string) { c.obl[rule]++ }

func (c *Ctx) note(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for _, n := range c.notes {
		if n == s {
			return
		}
	}
	c.notes = append(c.notes, s)
}

func (c *Ctx) bad(rule, construct string, pos token.Pos, pt *Path, f string, a ...any) {
	v := Violation{Rule: rule, Construct: construct, Pos: c.p.pos(pos), Detail: fmt.Sprintf(f, a...), Path: pt}
	if _, dup := c.viols[v.Key()]; dup {
		return
	}
	c.viols[v.Key()] = v
	c.order = append(c.order, v.Key())
}

// check records an obligation and a violation if it does not hold.
func (c *Ctx) check(holds bool, rule, construct string, pos token.Pos, pt *Path, f string, a ...any) bool {
	c.ok(rule)
	if !holds {
		c.bad(rule, construct, pos, pt, f, a...)
	}
	return holds
}

// atLeast fails when a rule matched fewer constructs than it must in any version of this program.
func (c *Ctx) atLeast(rule string, n int, what string) {
	if c.obl[rule] < n {
		c.bad(rule, "instances", token.NoPos, nil, "expected at least %d %s, the analysed program has %d", n, what, c.obl[rule])
	}
}

// part starts a sub-check that belongs to another property as well; merge takes over what concerns this one.
func (c *Ctx) part() *Ctx {
	q := newCtx(c.p, c.id, c.thorough)
	q.cache, q.rt, q.roots = c.cache, c.rt, c.roots
	return q
}

func (c *Ctx) merge(q *Ctx, rules ...string) {
	c.engines = append(c.engines, q.engines...)
	for _, r := range rules {
		c.obl[r] += q.obl[r]
	}
	for _, k := range q.order {
		v := q.viols[k]
		for _, r := range rules {
			if _, dup := c.viols[k]; v.Rule == r && !dup {
				c.viols[k] = v
				c.order = append(c.order, k)
			}
		}
	}
}

type opts struct {
	key      string
	noInline func(fn *ssa.Function, name string) bool
}

// paths analyses a root function.
func (c *Ctx) paths(fn *ssa.Function, o ...opts) ([]*Path, *Engine) {
	var op opts
	if len(o) > 0 {
		op = o[0]
	}
	name := c.p.funcName(fn)
	k := name + "|" + op.key
	if r, ok := c.cache[k]; ok {
		return r.paths, r.e
	}
	e := newEngine(c.p)
	if op.noInline != nil {
		e.noInline = func(f *ssa.Function) bool { return op.noInline(f, c.p.funcName(f)) }
	}
	var ps []*Path
	func() {
		defer func() {
			if r := recover(); r != nil {
				u, ok := r.(undecided)
				if !ok {
					panic(r)
				}
				c.bad("analysable", name, fn.Pos(), nil, "the analysis cannot decide this function: %s", u.why)
			}
		}()
		ps = e.analyze(fn)
	}()
	c.cache[k] = &rootResult{e, ps}
	c.engines = append(c.engines, e)
	c.roots[name] = len(ps)
	return ps, e
}

// root finds an anchor function; its absence is a violation because the property cannot be established.
func (c *Ctx) root(pkg, recv, name string) *ssa.Function {
	fn := c.p.fn(pkg, recv, name)
	if fn == nil || fn.Blocks == nil {
		c.bad("anchor", pkg+"."+recv+"."+name, token.NoPos, nil, "the function %s.%s.%s that provides this guarantee does not exist", pkg, recv, name)
		return nil
	}
	return fn
}

// ---- running ----

type knownFinding struct{ prop, key, text string }

func loadKnown(file string) []knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=<id> key=[<rule @ construct>] <text>
		rest := strings.TrimPrefix(l, "known: property=")
		i := strings.IndexByte(rest, ' ')
		if i < 0 {
			continue
		}
		k := knownFinding{prop: rest[:i]}
		rest = strings.TrimSpace(rest[i:])
		if strings.HasPrefix(rest, "key=[") {
			if j := strings.Index(rest, "] "); j > 0 {
				k.key, k.text = rest[5:j], rest[j+2:]
			}
		}
		if k.key != "" {
			r = append(r, k)
		}
	}
	return r
}

func runCheck(p *Program, ck Check, thorough bool, verif string, loadErr error, started time.Time) int {
	c := newCtx(p, ck.ID, thorough)
	if loadErr != nil {
		c.p = &Program{dir: ".", fset: token.NewFileSet()}
		c.bad("loadable", "module", token.NoPos, nil, "the current source cannot be analysed: %v", loadErr)
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("WFD_DEBUG") != "" {
						panic(r)
					}
					c.bad("analysable", "check", token.NoPos, nil, "the analysis failed: %v", r)
				}
			}()
			ck.Run(c)
		}()
	}
	known := loadKnown(filepath.Join(verif, "known_findings.txt"))
	nv := 0
	var report []map[string]any
	for _, k := range c.order {
		v := c.viols[k]
		isKnown := false
		for _, kf := range known {
			if kf.prop == ck.ID && kf.key == k {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, kf.text)
				isKnown = true
			}
		}
		if isKnown {
			continue
		}
		nv++
		rp := writeReplay(c, verif, ck, v, nv)
		fmt.Printf("%s: %s: %s [%s]\n", v.Pos, v.Construct, v.Detail, v.Rule)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, rp)
		report = append(report, map[string]any{"rule": v.Rule, "construct": v.Construct, "at": v.Pos, "detail": v.Detail})
	}
	writeEvidence(c, verif, ck, nv, report, time.Since(started))
	if nv > 0 {
		return 1
	}
	n := 0
	for _, k := range c.obl {
		n += k
	}
	fmt.Printf("%s holds: %d obligations of %d rules on %d analysed roots\n", ck.ID, n, len(c.obl), len(c.roots))
	return 0
}

func writeReplay(c *Ctx, verif string, ck Check, v Violation, n int) string {
	dir := filepath.Join(verif, "evidence", "replay")
	_ = os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%d.txt", ck.ID, n))
	var sb strings.Builder
	fmt.Fprintf(&sb, "property: %s %s\nrule: %s\nconstruct: %s\nat: %s\n%s\n", ck.ID, ck.Title, v.Rule, v.Construct, v.Pos, v.Detail)
	if v.Path != nil {
		fmt.Fprintf(&sb, "\npath on which the rule is broken (? = branch outcomes, others = effects in order):\n%s", describePath(c.p, v.Path))
	}
	_ = os.WriteFile(f, []byte(sb.String()), 0o644)
	return f
}

func describePath(p *Program, pt *Path) string {
	var sb strings.Builder
	fi := pt.Base
	for _, ev := range pt.Events {
		for ; fi < ev.NFacts && fi < len(pt.Facts); fi++ {
			fmt.Fprintf(&sb, "  ? %s   %s\n", pt.Facts[fi], p.pos(pt.Facts[fi].Pos))
		}
		if ev.Pure || ev.Kind == "access" || ev.Kind == "bounds" || ev.Kind == "enter" || ev.Kind == "use" {
			continue
		}
		fmt.Fprintf(&sb, "  %s %s %v %s => %v   %s\n", ev.Kind, ev.Fn, ev.Args, ev.Extra, ev.Res, p.pos(ev.Pos))
	}
	for ; fi < len(pt.Facts); fi++ {
		fmt.Fprintf(&sb, "  ? %s   %s\n", pt.Facts[fi], p.pos(pt.Facts[fi].Pos))
	}
	fmt.Fprintf(&sb, "  %s %v   %s\n", pt.Kind, pt.Results, p.pos(pt.Pos))
	return sb.String()
}

func writeEvidence(c *Ctx, verif string, ck Check, nv int, report []map[string]any, d time.Duration) {
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	tier := "quick"
	if c.thorough {
		tier = "thorough"
	}
	paths, events, steps := 0, 0, 0
	fns := map[string]bool{}
	for _, e := range c.engines {
		paths += e.nPaths
		events += e.nEvents
		steps += e.steps
		for f := range e.seen {
			fns[c.p.funcName(f)] = true
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	total := 0
	for _, n := range c.obl {
		total += n
	}
	ev := map[string]any{
		"property": ck.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]any{
			"explanation": "static analysis of the current source (go/ssa, path-partitioned abstract interpretation, no execution): " + ck.Rule,
			"counts": map[string]any{
				"obligations":           total,
				"rules":                 len(c.obl),
				"roots":                 len(c.roots),
				"paths":                 paths,
				"events":                events,
				"instructions_analysed": steps,
				"functions_analysed":    len(fl),
			},
			"obligations_by_rule": c.obl,
			"paths_by_root":       c.roots,
			"functions":           fl,
			"notes":               c.notes,
		},
		"wall_s":     d.Seconds(),
		"violations": nv,
		"assumptions": []string{
			"the Go type checker and go/ssa translate the source faithfully",
			"the dependencies (goleveldb, gowaves, stateless, chi, cbor, the standard library) behave as documented; their models are listed in DESIGN.md",
		},
	}
	if len(report) > 0 {
		ev["report"] = report
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(dir, ck.ID+".json"), append(b, '\n'), 0o644)
}
