package main

// The property layer: formulas over abstract states, obligations, findings and
// evidence.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Fm is a propositional combination of literals.
type Fm struct {
	op byte // 'l' literal, '&', '|'
	l  Lit
	xs []Fm
}

func L(l Lit) Fm { return Fm{op: 'l', l: l} }

func And(x ...Fm) Fm {
	r := Fm{op: '&'}
	for _, f := range x {
		if f.op == 'l' && f.l.op == LFalse {
			return False()
		}
		if f.op == 'l' && f.l.op == LTrue || f.op == '&' && len(f.xs) == 0 {
			continue
		}
		r.xs = append(r.xs, f)
	}
	if len(r.xs) == 1 {
		return r.xs[0]
	}
	if len(r.xs) == 0 {
		return True()
	}
	return r
}

func Or(x ...Fm) Fm {
	r := Fm{op: '|'}
	for _, f := range x {
		if f.op == 'l' && f.l.op == LTrue {
			return True()
		}
		if f.op == 'l' && f.l.op == LFalse || f.op == '|' && len(f.xs) == 0 {
			continue
		}
		r.xs = append(r.xs, f)
	}
	if len(r.xs) == 1 {
		return r.xs[0]
	}
	if len(r.xs) == 0 {
		return False()
	}
	return r
}

func Imp(a, b Fm) Fm { return Or(Not(a), b) }
func Iff(a, b Fm) Fm { return And(Imp(a, b), Imp(b, a)) }
func True() Fm       { return L(litTrue) }
func False() Fm      { return L(litFalse) }
func Eq(a, b Num) Fm { return L(cmpLit("==", a, b)) }
func Ne(a, b Num) Fm { return L(cmpLit("!=", a, b)) }
func Lt(a, b Num) Fm { return L(cmpLit("<", a, b)) }
func Le(a, b Num) Fm { return L(cmpLit("<=", a, b)) }
func Gt(a, b Num) Fm { return L(cmpLit(">", a, b)) }
func Ge(a, b Num) Fm { return L(cmpLit(">=", a, b)) }
func SEq(a, b V) Fm  { return L(strEq(a.(*Atom), b.(*Atom))) }
func Is(a V, s string) Fm {
	return L(strEq(a.(*Atom), strConst(s)))
}

func Not(f Fm) Fm {
	switch f.op {
	case 'l':
		return L(f.l.Not())
	case '&':
		var xs []Fm
		for _, x := range f.xs {
			xs = append(xs, Not(x))
		}
		return Or(xs...)
	}
	var xs []Fm
	for _, x := range f.xs {
		xs = append(xs, Not(x))
	}
	return And(xs...)
}

func (f Fm) String() string {
	if f.op == 'l' {
		return f.l.String()
	}
	var s []string
	for _, x := range f.xs {
		s = append(s, x.String())
	}
	if f.op == '&' {
		return "(" + strings.Join(s, " and ") + ")"
	}
	return "(" + strings.Join(s, " or ") + ")"
}

func (f Fm) terms() []Term {
	if f.op == 'l' {
		return litTerms(f.l)
	}
	var r []Term
	for _, x := range f.xs {
		r = append(r, x.terms()...)
	}
	return r
}

// assumeF adds a formula to the facts, one set per case.
func assumeF(f *Facts, a Fm) []*Facts {
	switch a.op {
	case 'l':
		if f.dead || a.l.op == LFalse {
			return nil
		}
		g := f.clone()
		g.assume(a.l)
		if g.dead {
			return nil
		}
		return []*Facts{g}
	case '&':
		cur := []*Facts{f}
		// literals first
		for pass := 0; pass < 2; pass++ {
			for _, x := range a.xs {
				if (x.op == 'l') != (pass == 0) {
					continue
				}
				var next []*Facts
				for _, c := range cur {
					next = append(next, assumeF(c, x)...)
				}
				cur = next
			}
		}
		return cur
	}
	var out []*Facts
	for _, x := range a.xs {
		// skip alternatives the facts exclude
		if x.op == 'l' && f.prove(x.l.Not()) {
			continue
		}
		out = append(out, assumeF(f, x)...)
	}
	return out
}

// proveF decides whether the facts entail a formula.
func proveF(f *Facts, a Fm) bool {
	if f.dead {
		return true
	}
	switch a.op {
	case 'l':
		return f.prove(a.l) || f.proveIdx(a.l) || f.proveViews(a.l, 3) || f.proveTight(a.l)
	case '&':
		for _, x := range a.xs {
			if !proveF(f, x) {
				return false
			}
		}
		return true
	}
	if len(a.xs) == 0 {
		return f.unsat(nil, 3)
	}
	for _, x := range a.xs {
		if x.op == 'l' && (f.prove(x.l) || f.proveIdx(x.l)) {
			return true
		}
	}
	last := a.xs[len(a.xs)-1]
	rest := a.xs[:len(a.xs)-1]
	if len(rest) == 0 {
		return proveF(f, last)
	}
	neg := Not(Or(rest...))
	for _, g := range assumeF(f, neg) {
		if g.refute(append(neg.terms(), last.terms()...), 3) {
			continue
		}
		if !proveF(g, last) {
			return false
		}
	}
	return true
}

// proveViews proves a comparison of elements of views by cases on the viewed
// segments they belong to.
func (f *Facts) proveViews(l Lit, depth int) bool {
	if l.op < LEq || l.op > LLt || depth == 0 {
		return false
	}
	n, open := f.unview(f.norm(l.n))
	m := numLit(l.op, n)
	if m.k != l.k && f.prove(m) {
		return true
	}
	if open == nil {
		return false
	}
	for _, c := range []Lit{*open, open.Not()} {
		g := f.clone()
		g.assume(c)
		if !g.dead && !g.prove(m) && !g.proveViews(m, depth-1) {
			return false
		}
	}
	return true
}

// proveTight retries a comparison of elements after making equalities of the
// bounds that pin the indices in it.
func (f *Facts) proveTight(l Lit) bool {
	l = f.normLit(l)
	if l.op < LEq || l.op > LLt {
		return false
	}
	names := map[*Atom]bool{}
	deep(l.n, func(a *Atom) {
		if a.kind == KSel {
			if i, ok := a.args[0].(Num); ok {
				i.atoms(func(b *Atom) { names[b] = b.kind == KSym })
			}
		}
	})
	if len(names) == 0 {
		return false
	}
	g := f.clone()
	return g.tighten(names) && (g.dead || g.prove(l) || g.proveViews(l, 3))
}

// proveIdx decides the equality of two indices (or of two elements of one
// array, through their indices) from what is known about the elements there.
func (f *Facts) proveIdx(l Lit) bool {
	l = f.normLit(l)
	if l.op != LEq {
		return false
	}
	n := l.n
	if len(n.p) == 2 && n.p[0].c.Cmp(new(big.Rat).Neg(n.p[1].c)) == 0 {
		x, y := n.p[0].m.f, n.p[1].m.f
		if len(x) == 1 && len(y) == 1 && x[0].e == 1 && y[0].e == 1 {
			a, b := x[0].a, y[0].a
			if a.kind == KSel && b.kind == KSel && a.arr == b.arr {
				n = Sub(a.args[0].(Num), b.args[0].(Num))
			}
		}
	}
	if !n.isIntMonos() {
		return false
	}
	syms := map[*Atom]bool{}
	deep(n, func(a *Atom) {
		if a.kind == KSym {
			syms[a] = true
		}
	})
	if len(syms) == 0 || len(syms) > 3 {
		return false
	}
	focus := []Term{n}
	pick := func(a *Atom) {
		if a.kind == KSel && a.maxLv == 0 {
			hit := false
			deep(a.args[0], func(b *Atom) { hit = hit || syms[b] })
			if hit && len(focus) < 12 {
				focus = append(focus, atomNum(a))
			}
		}
	}
	for _, l := range f.lits {
		l.deep(pick)
	}
	for _, a := range f.eqAtoms() {
		deep(a, pick)
		deep(f.eqs[a], pick)
	}
	if len(focus) == 1 {
		return false
	}
	for _, d := range []Num{n, Neg(n)} {
		g := f.clone()
		g.assume(numLit(LLt, d))
		if !g.dead && !g.refute(focus, 3) {
			return false
		}
	}
	return true
}

// eqF: two abstract values are equal.
func eqF(a, b V) Fm {
	switch x := a.(type) {
	case Num:
		y, ok := b.(Num)
		if !ok {
			return False()
		}
		return Eq(x, y)
	case *Atom:
		y, ok := b.(*Atom)
		if !ok {
			return False()
		}
		return L(strEq(x, y))
	case Lit:
		y, ok := b.(Lit)
		if !ok {
			return False()
		}
		if x.k == y.k {
			return True()
		}
		return Iff(L(x), L(y))
	case *Struct:
		y, ok := b.(*Struct)
		if !ok || len(x.f) != len(y.f) {
			return False()
		}
		var xs []Fm
		for i := range x.f {
			xs = append(xs, eqF(x.f[i], y.f[i]))
		}
		return And(xs...)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return False()
		}
		if x.obj == y.obj && x.path == y.path && (x.idx == nil) == (y.idx == nil) {
			n := eqF(x.nilL, y.nilL)
			if x.idx != nil {
				return And(n, Eq(*x.idx, *y.idx))
			}
			return n
		}
		return And(L(x.nilL), L(y.nilL))
	case Slice:
		y, ok := b.(Slice)
		if !ok {
			return False()
		}
		if x.obj == y.obj {
			return And(Eq(x.off, y.off), Eq(x.len, y.len), eqF(x.nilL, y.nilL))
		}
		return And(Eq(x.len, IntN(0)), Eq(y.len, IntN(0)), eqF(x.nilL, y.nilL))
	case MapV:
		y, ok := b.(MapV)
		if !ok {
			return False()
		}
		if x.obj == y.obj {
			return eqF(x.nilL, y.nilL)
		}
		return And(L(x.nilL), L(y.nilL))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return False()
		}
		if vKey(x) == vKey(y) {
			return True()
		}
		return And(L(x.nilL), L(y.nilL))
	}
	if vKey(a) == vKey(b) {
		return True()
	}
	return False()
}

// field reads a (dotted) field of a struct value.
func field(v V, name string) V {
	s, ok := v.(*Struct)
	if !ok {
		panic(undecided{"field " + name + " of an untracked value"})
	}
	return getPath(s, fieldPath(s.typ, name))
}

func num(v V) Num {
	n, ok := v.(Num)
	if !ok {
		panic(undecided{"a numeric value is not tracked"})
	}
	return n
}

func fieldN(v V, name string) Num { return num(field(v, name)) }

// ---- context of one property ----

type Finding struct{ Rule, Where, Msg string }

type Ctx struct {
	id, tier   string
	prog       *Prog
	finds      []Finding
	seen       map[string]bool
	obls, disc int
	rules      map[string]int
	funcs      map[string]bool
	calls      map[string]int
	outcomes   int
	loops      int
	rtObls     int
	sites      int
	samples    []string
	assume     []string
	log        bool
}

func (c *Ctx) fail(rule, where, format string, a ...interface{}) {
	f := Finding{rule, where, fmt.Sprintf(format, a...)}
	k := f.Rule + "|" + f.Where + "|" + f.Msg
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.finds = append(c.finds, f)
}

// ob records one obligation of a rule at a construct.
func (c *Ctx) ob(ok bool, rule, where, format string, a ...interface{}) bool {
	c.obls++
	c.rules[rule]++
	if ok {
		c.disc++
		if len(c.samples) < 12 && c.rules[rule] <= 2 {
			c.samples = append(c.samples, rule+" @ "+where)
		}
		return true
	}
	c.fail(rule, where, format, a...)
	return false
}

// guard runs f, turning undecided analyses and internal failures into findings.
func (c *Ctx) guard(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case undecided:
				c.ob(false, "decided", what, "the analysis could not decide: %s", x.msg)
			case deadState:
				c.ob(false, "decided", what, "contradictory precondition")
			default:
				if c.log {
					debug.PrintStack()
				}
				c.ob(false, "decided", what, "the analysis failed: %v", r)
			}
		}
	}()
	f()
}

// Run is the analysis of one function from an arbitrary entry state.
type Run struct {
	c    *Ctx
	fn   *ssa.Function
	name string
	e    *Eng
	st0  *State
	args []V
	rets []*State
}

type runOpt struct {
	prep    func(e *Eng, st *State, args []V)
	partial bool // do not require the absence of run-time panics
	setup   func(e *Eng)
	args    func(st *State, fn *ssa.Function) []V
}

// run analyses a function; nil when that failed (already reported).
func (c *Ctx) run(name string, opt runOpt) *Run {
	fn := c.prog.fn(name)
	if fn == nil || fn.Blocks == nil {
		c.ob(false, "anchor", name, "function not found")
		return nil
	}
	r := &Run{c: c, fn: fn, name: name, e: newEng(c.prog)}
	ok := false
	c.guard(name, func() {
		e := r.e
		st := e.newState()
		if opt.args != nil {
			r.args = opt.args(st, fn)
		} else {
			for _, q := range fn.Params {
				r.args = append(r.args, st.entryV(q.Type(), q.Name(), true))
			}
		}
		if opt.prep != nil {
			opt.prep(e, st, r.args)
		}
		if opt.setup != nil {
			opt.setup(e)
		}
		r.st0 = st.clone()
		r.rets = e.inline(fn, r.args, nil, st)
		ok = true
	})
	for f := range r.e.funcs {
		c.funcs[fnName(f)] = true
	}
	for k, n := range r.e.calls {
		c.calls[k] += n
	}
	c.outcomes += len(r.rets)
	c.loops += r.e.loopCount
	if !ok {
		return nil
	}
	if len(r.rets) == 0 {
		c.ob(false, "returns", name, "no reachable return")
		return nil
	}
	if !opt.partial {
		r.runtime()
	}
	return r
}

// runtime: no operation of the analysed functions can panic, loops terminate.
func (r *Run) runtime() {
	for _, k := range r.e.oblOrder {
		o := r.e.obl[k]
		r.c.rtObls++
		r.c.ob(o.ok, "no-panic/"+o.kind, o.where, "cannot be shown: %s", o.why)
	}
}

// Out is one abstract outcome of a run.
type Out struct {
	*Run
	st *State
	i  int
}

func (r *Run) each(f func(o *Out)) {
	for i, st := range r.rets {
		if st.f.prove(litFalse) {
			continue // cannot happen
		}
		o := &Out{r, st, i}
		r.c.guard(o.where(), func() { f(o) })
	}
}

func (o *Out) where() string {
	return fmt.Sprintf("%s (return at %s)", o.name, o.st.exit)
}

// must requires a formula to hold in the outcome.
func (o *Out) must(rule string, f Fm, format string, a ...interface{}) bool {
	return o.mustIn(o.st, rule, f, format, a...)
}

func (o *Out) mustIn(st *State, rule string, f Fm, format string, a ...interface{}) bool {
	ok := proveF(st.f, f)
	msg := fmt.Sprintf(format, a...)
	if !ok && o.c.log {
		fmt.Printf("---- %s: %s\n  goal %v\n%s", rule, msg, f, st.dump())
	}
	return o.c.ob(ok, rule, o.where(), "%s", msg)
}

func (o *Out) ret(i int) V { return o.st.ret[i] }

// deref loads what a returned pointer points to.
func (o *Out) deref(v V) V {
	p, ok := v.(Ptr)
	if !ok {
		panic(undecided{"a pointer is not tracked"})
	}
	return o.st.load(p)
}

// errNil is the literal "the error result is nil".
func errNil(v V) Fm {
	i, ok := v.(Iface)
	if !ok {
		panic(undecided{"an error value is not tracked"})
	}
	return L(i.nilL)
}

// errCode gives the code of an error made by the error library.
func (o *Out) errCode(v V) *Atom {
	i := v.(Iface)
	if i.dyn != nil {
		if p, ok := i.val.(Ptr); ok && p.obj != 0 {
			if s, ok := o.st.obj(p.obj).val.(*Struct); ok {
				if a, ok := getPath(s, fieldPath(s.typ, "Code")).(*Atom); ok {
					return a
				}
			}
		}
	}
	return nil
}

func (o *Out) mustCode(v V, codes ...string) {
	a := o.errCode(v)
	if a == nil {
		o.c.ob(false, "error-code", o.where(), "the code of the returned error is unknown")
		return
	}
	var xs []Fm
	for _, s := range codes {
		xs = append(xs, Is(a, s))
	}
	o.must("error-code", Or(xs...), "the error code is not %s", strings.Join(codes, " or "))
}

// old loads an entry value.
func (r *Run) old(v V) V {
	p, ok := v.(Ptr)
	if !ok {
		return v
	}
	return r.st0.load(p)
}

// oldElem reads element idx of an entry slice (as it was on entry).
func (r *Run) oldElem(s Slice, idx Num) V {
	o := r.st0.obj(s.obj)
	return entryElem(o, Add(s.off, idx), "", s.elem)
}

func entryElem(o *Obj, idx Num, path string, t types.Type) V {
	if s, ok := isStruct(t); ok {
		r := &Struct{typ: t}
		for i := 0; i < s.NumFields(); i++ {
			r.f = append(r.f, entryElem(o, idx, joinPath(path, strconv.Itoa(i)), s.Field(i).Type()))
		}
		return r
	}
	segs := o.cols[path]
	if len(segs) != 1 {
		panic(undecided{"entry array with several segments"})
	}
	return segAt(segs[0], idx)
}

// forall checks every element of a slice in the outcome: f is called on
// states that split the arbitrary index k, with the element's value.
func (o *Out) forall(s Slice, name string, f func(st *State, k Num, v V)) {
	k := atomNum(freshSym(name, SInt))
	for _, st := range o.e.fork(o.st, func(x *State) {
		x.assume(cmpLit(">=", k, IntN(0)))
		x.assume(cmpLit("<", k, s.len))
		v := x.readElem(x.obj(s.obj), Add(s.off, k), "", s.elem)
		x.ghost["$elem"] = v
	}) {
		if st.f.prove(litFalse) {
			continue
		}
		v := st.ghost["$elem"]
		delete(st.ghost, "$elem")
		f(st, k, v)
	}
}

// with runs f on copies of the outcome extended by a formula (one per case).
func (o *Out) with(a Fm, f func(st *State)) {
	for _, g := range assumeF(o.st.f, a) {
		if g.refute(a.terms(), 3) {
			continue
		}
		s := o.st.clone()
		s.f = g
		s.shared = true
		f(s)
	}
}

// mustUnchanged: an entry object has its entry content.
func (o *Out) mustUnchanged(rule string, id int, what string) {
	a, b := o.st0.mem[id], o.st.mem[id]
	if b == nil {
		o.c.ob(false, rule, o.where(), "%s is not tracked", what)
		return
	}
	switch a.kind {
	case OCell:
		o.must(rule, eqF(a.val, b.val), "%s is modified", what)
	case OArr:
		o.c.ob(objKey(a) == objKey(b), rule, o.where(), "the elements of %s are modified", what)
	case OMap:
		o.c.ob(len(b.entries) == len(a.entries) && a.havoc == b.havoc, rule, o.where(), "the map %s is modified", what)
	}
}

// mustPure: no object that existed on entry is modified.
func (o *Out) mustPure(rule string, except map[int]bool) {
	var ids []int
	for id, ob := range o.st0.mem {
		if ob.entry && !except[id] {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		o.mustUnchanged(rule, id, strings.TrimPrefix(o.st0.mem[id].name, "*"))
	}
}

// ---- driver ----

type property struct {
	id    string
	level string
	run   func(c *Ctx)
	rule  string // one sentence: what the analysis decides
}

var registry = map[string]*property{}

func register(id, rule string, run func(c *Ctx)) {
	registry[id] = &property{id: id, run: run, rule: rule, level: "other"}
}

var baseAssumptions = []string{
	"floating-point arithmetic is treated as real arithmetic (no NaN, infinity or rounding; float32 conversion is an uninterpreted function)",
	"integer arithmetic does not overflow; numeric inputs are smaller in magnitude than 1e306",
	"distinct pointer and slice parameters do not alias; receivers and pointer parameters are non-nil",
	"library functions behave as their documentation says (models of fmt, math, sort, strconv, strings, time, os, bufio, xid, ez)",
}

// findingsKnown reads the committed list of known findings.
type known struct{ prop, text string }

func knownFindings(file string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.IndexByte(l, ' ')
		if i > 0 {
			out = append(out, known{l[:i], strings.TrimSpace(l[i:])})
		}
	}
	return out
}

func newCtx(id, tier string, p *Prog) *Ctx {
	return &Ctx{id: id, tier: tier, prog: p, seen: map[string]bool{}, rules: map[string]int{}, funcs: map[string]bool{}, calls: map[string]int{}}
}

func runProperty(id, tier, repo, root string, log bool) int {
	t0 := time.Now()
	pr := registry[id]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	c := newCtx(id, tier, nil)
	c.log = log
	p, err := loadProg(repo, nil)
	if err != nil {
		c.ob(false, "load", repo, "%v", err)
	} else {
		c.prog = p
		c.guard("property "+id, func() { pr.run(c) })
		if c.obls == 0 {
			c.ob(false, "vacuous", "property "+id, "no construct to check was found")
		}
	}
	// evidence
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"explanation":         "Decided by static analysis of /repo's type-checked SSA form; no code of /repo is run. Rule: " + pr.rule,
		"functions_analysed":  fns,
		"abstract_outcomes":   c.outcomes,
		"loop_fixpoints":      c.loops,
		"obligations":         c.obls,
		"discharged":          c.disc,
		"obligations_by_rule": c.rules,
		"samples":             c.samples,
	}
	if c.rtObls > 0 {
		cov["runtime_panic_obligations"] = c.rtObls
	}
	if c.sites > 0 {
		cov["sites"] = c.sites
	}
	if len(c.calls) > 0 {
		cov["library_calls"] = c.calls
	}
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0o755)
	code := 0
	nviol := 0
	var fresh, old []Finding
	kn := knownFindings(filepath.Join(root, "known-findings.txt"))
	for _, f := range c.finds {
		isK := false
		for _, k := range kn {
			if k.prop == id && strings.Contains(f.Where+": "+f.Msg, k.text) {
				isK = true
			}
		}
		if isK {
			old = append(old, f)
		} else {
			fresh = append(fresh, f)
		}
	}
	for _, f := range old {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, f.Where, f.Msg)
	}
	if len(fresh) > 0 {
		nviol = len(fresh)
		code = 1
		path := filepath.Join(dir, id+".violation.txt")
		var sb strings.Builder
		for _, f := range fresh {
			fmt.Fprintf(&sb, "%s: [%s] %s\n", f.Where, f.Rule, f.Msg)
		}
		os.WriteFile(path, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	} else {
		os.Remove(filepath.Join(dir, id+".violation.txt"))
		fmt.Printf("property %s holds: %d obligations discharged, %d functions, %d outcomes\n", id, c.disc, len(fns), c.outcomes)
	}
	ev := map[string]interface{}{
		"property":    id,
		"tier":        tier,
		"seed":        seed,
		"level":       pr.level,
		"coverage":    cov,
		"assumptions": append(append([]string(nil), baseAssumptions...), c.assume...),
		"violations":  nviol,
		"wall_s":      time.Since(t0).Seconds(),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
	return code
}

func sortStrings(s []string) { sort.Strings(s) }
