package main

// Transfer functions of the abstract interpreter over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	kind  string // index, slice, nil, div, assert, mapnil, panic, loop, spec...
	where string // function and position
	ok    bool
	why   string
	n     int
}

type Eng struct {
	prog       *Prog
	nilLen     map[*Atom]Num
	altScripts [][]int
	quiet      int
	marks      []int                    // number of objects when each active function was entered
	keep       map[ssa.Instruction]bool // instructions of keepFn to follow, nil for all
	keepFn     *ssa.Function
	obl        map[string]*Oblig
	oblOrder   []string
	depth      int
	stack      []*ssa.Function
	funcs      map[*ssa.Function]bool // functions analysed
	calls      map[string]int         // external calls met
	cfgs       map[*ssa.Function]*cfgInfo
	onAppend   func(st *State, fn *ssa.Function, instr ssa.Instruction, dst Slice, elems []V)
	onMapSet   func(st *State, instr *ssa.MapUpdate, m MapV, k, v V)
	onCall     func(st *State, instr ssa.CallInstruction, name string, args []V)
	onFDiv     func(st *State, instr ssa.Instruction, den Num)
	loopCount  int
	loopLog    []string
	debug      bool
	steps      int
	sorted     map[*Arr]sortInfo
	sortCount  int
	onBack     []func(g *gen, h, b *State)
	onStore    func(st *State, instr *ssa.Store, p Ptr)
	onChange   func(st *State, pos token.Pos, o *Obj)                                  // before an object is changed
	joins      map[*Atom]Slice                                                         // lists joined to a text
	lists      map[*Atom]V                                                             // contents of the lists rendered as a whole
	onExit     func(st *State, l *loopInfo)                                            // when an outermost loop is left
	onTick     func(st *State)                                                         // at the end of an iteration of an outermost loop
	onResult   func(st *State, fn *ssa.Function, pos token.Pos, name string, args []V) // after a library call
	loopDepth  int
	onLoop     func(st *State) // before a loop is analysed
}

func (e *Eng) changed(st *State, pos token.Pos, id int) {
	if o, ok := st.mem[id]; ok && e.onChange != nil {
		e.onChange(st, pos, o)
	}
}

// debugAll prints the loop models of every run (-debug).
var debugAll bool

func newEng(p *Prog) *Eng {
	return &Eng{prog: p, debug: debugAll, nilLen: map[*Atom]Num{}, obl: map[string]*Oblig{}, funcs: map[*ssa.Function]bool{}, calls: map[string]int{}, cfgs: map[*ssa.Function]*cfgInfo{}}
}

func (e *Eng) newState() *State {
	return &State{mem: map[int]*Obj{}, env: map[ssa.Value]V{}, f: newFacts(), ghost: map[string]V{}, eng: e}
}

func (e *Eng) log(f string, a ...interface{}) {
	if e.debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func fnName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, "github.com/vanclief/finmod/", "")
	return s
}

// oblige records an obligation and then assumes it.
func (e *Eng) oblige(st *State, kind string, fn *ssa.Function, pos token.Pos, what string, ls ...Lit) {
	ok := true
	var bad string
	if e.quiet == 0 {
		for _, l := range ls {
			if !st.f.prove(l) {
				ok = false
				bad = st.f.normLit(l).String()
				break
			}
		}
		e.record(kind, fn, pos, what, ok, bad)
	}
	for _, l := range ls {
		st.assume(l)
	}
}

func (e *Eng) record(kind string, fn *ssa.Function, pos token.Pos, what string, ok bool, why string) {
	if e.quiet > 0 {
		return
	}
	where := fmt.Sprintf("%s (%s) %s", fnName(fn), e.prog.pos(pos), what)
	k := kind + " " + where
	o := e.obl[k]
	if o == nil {
		o = &Oblig{kind: kind, where: where, ok: true}
		e.obl[k] = o
		e.oblOrder = append(e.oblOrder, k)
	}
	o.n++
	if !ok && o.ok {
		o.ok = false
		o.why = why
	}
}

// ---- control flow info ----

type loopInfo struct {
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *loopInfo
}

type cfgInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loopInfo // by header
}

func (e *Eng) cfg(fn *ssa.Function) *cfgInfo {
	if c, ok := e.cfgs[fn]; ok {
		return c
	}
	c := &cfgInfo{loops: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		c.rpo = append(c.rpo, post[i])
	}
	for _, b := range c.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := c.loops[s]
				if l == nil {
					l = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					c.loops[s] = l
				}
				// natural loop
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	e.cfgs[fn] = c
	return c
}

type outcome struct {
	rets  []*State
	backs []*State
	exits []exitState
}

type exitState struct {
	to *ssa.BasicBlock
	st *State
}

// region runs the blocks of fn (restricted to within when not nil) from entry.
func (e *Eng) region(fn *ssa.Function, entry *ssa.BasicBlock, in []*State, within *loopInfo) outcome {
	c := e.cfg(fn)
	pend := map[*ssa.BasicBlock][]*State{entry: in}
	var out outcome
	first := true
	deliver := func(from, to *ssa.BasicBlock, st *State) {
		// evaluate phis in parallel
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		var vals []V
		var phis []*ssa.Phi
		for _, ins := range to.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, ph)
			vals = append(vals, st.val(ph.Edges[pi]))
		}
		for i, ph := range phis {
			st.env[ph] = vals[i]
		}
		if within != nil && to == within.head {
			out.backs = append(out.backs, st)
			return
		}
		if within != nil && !within.body[to] {
			out.exits = append(out.exits, exitState{to, st})
			return
		}
		pend[to] = append(pend[to], st)
	}
	for _, b := range c.rpo {
		sts := pend[b]
		if len(sts) == 0 {
			continue
		}
		delete(pend, b)
		if l := c.loops[b]; l != nil && !(first && within != nil && b == within.head) {
			for _, st := range e.mergeAll(sts, 12) {
				o := e.loop(fn, l, st)
				out.rets = append(out.rets, o.rets...)
				for _, x := range o.exits {
					if within != nil && x.to == within.head {
						out.backs = append(out.backs, x.st)
					} else if within != nil && !within.body[x.to] {
						out.exits = append(out.exits, x)
					} else {
						pend[x.to] = append(pend[x.to], x.st)
					}
				}
			}
			continue
		}
		first = false
		if len(b.Preds) > 1 {
			sts = e.mergeAll(sts, 64)
		}
		for _, st := range sts {
			e.block(fn, b, st, deliver, &out)
		}
	}
	return out
}

// mergeAll joins states that agree on all values when there are many of them.
func (e *Eng) mergeAll(sts []*State, limit int) []*State {
	if len(sts) <= limit {
		return sts
	}
	groups := map[string][]*State{}
	var order []string
	for _, s := range sts {
		k := s.key()
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range order {
		g := groups[k]
		s := g[0]
		for _, o := range g[1:] {
			s = joinFacts(s, o)
		}
		out = append(out, s)
	}
	return out
}

func (st *State) key() string {
	var ks []string
	for r, v := range st.env {
		ks = append(ks, fmt.Sprintf("%p=%s", r, vKey(v)))
	}
	for id, o := range st.mem {
		ks = append(ks, fmt.Sprintf("o%d=%s", id, objKey(o)))
	}
	for g, v := range st.ghost {
		ks = append(ks, g+"="+vKey(v))
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n")
}

func (f *Facts) all() []Lit {
	out := append([]Lit(nil), f.lits...)
	for a, t := range f.eqs {
		out = append(out, eqLit(a, t))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].k < out[j].k })
	return out
}

func eqLit(a *Atom, t Term) Lit {
	switch t := t.(type) {
	case Num:
		return numLit(LEq, Sub(atomNum(a), t))
	case *Atom:
		return strEq(a, t)
	case litTerm:
		return boolAtomLit(a, true)
	}
	panic("eqLit")
}

func joinFacts(a, b *State) *State {
	r := a.clone()
	nf := newFacts()
	for _, l := range a.f.all() {
		if b.f.proveN(l, 0) {
			nf.assume(l)
		}
	}
	for _, l := range b.f.all() {
		if a.f.proveN(l, 0) {
			nf.assume(l)
		}
	}
	for _, q := range a.f.qs {
		if b.f.proveQ(q) {
			nf.assumeQ(q)
		}
	}
	r.f = nf
	r.shared = false
	in := map[string]bool{}
	for _, l := range b.path {
		in[l.k] = true
	}
	var path []Lit
	for _, l := range a.path {
		if in[l.k] {
			path = append(path, l)
		}
	}
	r.path = path
	return r
}

// block runs the instructions of b on st.
func (e *Eng) block(fn *ssa.Function, b *ssa.BasicBlock, st *State, deliver func(from, to *ssa.BasicBlock, st *State), out *outcome) {
	cur := []*State{st}
	for _, ins := range b.Instrs {
		e.steps++
		if e.steps > 3000000 {
			panic(undecided{"analysis budget exceeded in " + fnName(fn)})
		}
		if e.keep != nil && fn == e.keepFn && !e.keep[ins] {
			if _, ok := ins.(ssa.Value); ok {
				continue
			}
			switch ins.(type) {
			case *ssa.Store, *ssa.MapUpdate:
				continue
			}
		}
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			for _, s := range cur {
				deliver(b, b.Succs[0], s)
			}
			return
		case *ssa.If:
			for _, s := range cur {
				for _, r := range e.fork(s, func(x *State) {
					c, ok := x.val(ins.Cond).(Lit)
					if !ok {
						panic(undecided{"branch on an untracked value"})
					}
					if x.choose(c) {
						x.ghost["$br"] = litTrue
					} else {
						x.ghost["$br"] = litFalse
					}
				}) {
					t := r.ghost["$br"].(Lit).op == LTrue
					delete(r.ghost, "$br")
					if t {
						deliver(b, b.Succs[0], r)
					} else {
						deliver(b, b.Succs[1], r)
					}
				}
			}
			return
		case *ssa.Return:
			for _, s := range cur {
				s.ret = nil
				for _, r := range ins.Results {
					s.ret = append(s.ret, s.val(r))
				}
				s.exit = e.prog.pos(ins.Pos())
				out.rets = append(out.rets, s)
			}
			return
		case *ssa.Panic:
			for range cur {
				e.record("panic", fn, ins.Pos(), "explicit panic", false, "reachable")
			}
			return
		}
		var next []*State
		for _, s := range cur {
			next = append(next, e.instr(fn, ins, s)...)
		}
		cur = next
		if len(cur) == 0 {
			return
		}
	}
}

// val evaluates an operand.
func (st *State) val(v ssa.Value) V {
	switch v := v.(type) {
	case *ssa.Const:
		return constV(v)
	case *ssa.Function:
		return FuncV{fn: v}
	case *ssa.Global:
		return st.eng.globalPtr(st, v)
	case *ssa.Builtin:
		return FuncV{}
	}
	x, ok := st.env[v]
	if !ok {
		panic(undecided{fmt.Sprintf("no value for %s in %s", v.Name(), fnName(v.Parent()))})
	}
	return x
}

func constV(c *ssa.Const) V {
	if c.Value == nil {
		return zeroV(c.Type())
	}
	switch sortOf(c.Type()) {
	case SInt, SReal:
		r := new(big.Rat)
		if _, ok := r.SetString(c.Value.ExactString()); !ok {
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			r.SetFloat64(f)
		}
		if b, ok := under(c.Type()).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			// the machine value of the constant
			if b.Kind() == types.Float32 {
				f, _ := constant.Float32Val(c.Value)
				r.SetFloat64(float64(f))
			}
		}
		return RatN(r)
	case SStr:
		return strConst(constant.StringVal(c.Value))
	case SBool:
		return boolLit(constant.BoolVal(c.Value))
	}
	return namedSymT("const:"+c.String(), c.Type())
}

// globalPtr gives a pointer to a package variable; its content is unknown but
// fixed, except that effectively constant variables have their initial value.
func (e *Eng) globalPtr(st *State, g *ssa.Global) V {
	t := g.Type().(*types.Pointer).Elem()
	name := "global " + g.Name()
	for id, o := range st.mem {
		if o.name == name {
			return Ptr{obj: id, nilL: litFalse, typ: t}
		}
	}
	var v V
	if c := e.prog.globalConst(g); c != nil {
		v = constV(c)
	} else if i := e.initial(g); i != nil {
		v = i.bring(st)
	} else {
		v = st.entryV(t, name, false)
	}
	o := st.newObj(&Obj{kind: OCell, typ: t, name: name, entry: true, val: v})
	return Ptr{obj: o.id, nilL: litFalse, typ: t}
}

// An initValue is what a package variable is left with by the package
// initialiser, with the memory it refers to.
type initValue struct {
	v   V
	mem map[int]*Obj
}

// initial gives the value of a table: a package variable of map or slice type
// that is assigned in the package initialiser only and otherwise only read.
func (e *Eng) initial(g *ssa.Global) *initValue {
	if i, ok := e.prog.initials[g]; ok {
		return i
	}
	e.prog.initials[g] = nil
	switch under(g.Type().(*types.Pointer).Elem()).(type) {
	case *types.Map, *types.Slice:
	default:
		return nil
	}
	if g.Pkg == nil || !inRepo(g.Pkg.Func("init")) || !e.prog.onlyInit(g) {
		return nil
	}
	x := newEng(e.prog)
	x.quiet++
	x.keepFn = g.Pkg.Func("init")
	x.keep = sliceOf(x.keepFn, g)
	st := x.newState()
	var rets []*State
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(undecided); !ok {
					panic(r)
				}
			}
		}()
		rets = x.inline(g.Pkg.Func("init"), nil, nil, st)
	}()
	if len(rets) == 0 {
		return nil
	}
	// the initialiser runs once: the outcome with every variable set
	st = rets[len(rets)-1]
	for _, o := range st.mem {
		if o.name == "global "+g.Name() && o.kind == OCell && o.val != nil {
			i := &initValue{v: o.val, mem: map[int]*Obj{}}
			seen := map[int]bool{}
			reach(st, o.val, seen)
			for id := range seen {
				i.mem[id] = st.mem[id]
			}
			e.prog.initials[g] = i
		}
	}
	return e.prog.initials[g]
}

// sliceOf gives the instructions of fn that g's contents or a branch depend on.
func sliceOf(fn *ssa.Function, g *ssa.Global) map[ssa.Instruction]bool {
	keep := map[ssa.Instruction]bool{}
	known := map[*ssa.Global]bool{}
	touches := map[*ssa.Global][]ssa.Instruction{}
	var need func(v ssa.Value)
	var take func(i ssa.Instruction)
	take = func(i ssa.Instruction) {
		if keep[i] {
			return
		}
		keep[i] = true
		for _, o := range i.Operands(nil) {
			if *o != nil {
				need(*o)
			}
		}
	}
	// whoever builds on the same memory
	need = func(v ssa.Value) {
		if h, ok := v.(*ssa.Global); ok && !known[h] {
			known[h] = true
			for _, i := range touches[h] {
				take(i)
			}
		}
		if i, ok := v.(ssa.Instruction); ok {
			if keep[i] {
				return
			}
			take(i)
			if r := v.Referrers(); r != nil {
				for _, u := range *r {
					switch u := u.(type) {
					case *ssa.IndexAddr:
						need(u)
					case *ssa.FieldAddr:
						need(u)
					case *ssa.Store:
						if u.Addr == v {
							take(u)
						}
					case *ssa.MapUpdate:
						if u.Map == v {
							take(u)
						}
					}
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			for _, o := range i.Operands(nil) {
				if h, ok := (*o).(*ssa.Global); ok {
					touches[h] = append(touches[h], i)
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			need(i.Cond)
		}
	}
	need(g)
	return keep
}

// bring adds the memory of an initial value to a state.
func (i *initValue) bring(st *State) V {
	for id, o := range i.mem {
		if st.mem[id] == nil {
			st.mem[id] = o
		}
	}
	return i.v
}

func elemOf(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemOf(u.Elem())
	}
	return nil
}

// nonNil obliges p to be non-nil.
func (e *Eng) nonNil(st *State, fn *ssa.Function, pos token.Pos, what string, l Lit) {
	if l.op == LFalse {
		return
	}
	e.oblige(st, "nil", fn, pos, what, l.Not())
}

// instr executes one non-terminator.
func (e *Eng) instr(fn *ssa.Function, ins ssa.Instruction, st *State) []*State {
	if c, ok := ins.(*ssa.Call); ok {
		return e.call(fn, c, st)
	}
	if rd, ok := ins.(*ssa.RunDefers); ok {
		return e.runDefers(fn, rd, st)
	}
	return e.fork(st, func(s *State) { e.step(fn, ins, s) })
}

func (e *Eng) step(fn *ssa.Function, ins ssa.Instruction, st *State) {
	switch ins := ins.(type) {
	case *ssa.Alloc:
		t := ins.Type().(*types.Pointer).Elem()
		if at, ok := under(t).(*types.Array); ok && !isNamedExternal(t) {
			o := st.newObj(&Obj{kind: OArr, typ: at.Elem(), name: fnName(fn) + "." + ins.Comment, cap: IntN(at.Len()), cols: map[string][]seg{}})
			for _, l := range leaves(at.Elem()) {
				if at.Len() > 0 {
					o.cols[l.path] = []seg{{n: IntN(at.Len()), val: zeroV(l.typ)}}
				} else {
					o.cols[l.path] = nil
				}
			}
			st.env[ins] = Ptr{obj: o.id, nilL: litFalse, typ: t}
			return
		}
		o := st.newObj(&Obj{kind: OCell, typ: t, name: fnName(fn) + "." + ins.Comment, val: zeroV(t)})
		st.env[ins] = Ptr{obj: o.id, nilL: litFalse, typ: t}
	case *ssa.BinOp:
		st.env[ins] = e.binop(fn, st, ins)
	case *ssa.UnOp:
		switch ins.Op {
		case token.MUL:
			p, ok := st.val(ins.X).(Ptr)
			if !ok {
				panic(undecided{"dereference of an untracked pointer"})
			}
			e.nonNil(st, fn, ins.Pos(), "dereference of "+ins.X.Name(), p.nilL)
			st.env[ins] = st.load(p)
		case token.SUB:
			st.env[ins] = Neg(st.num(ins.X))
		case token.NOT:
			st.env[ins] = st.val(ins.X).(Lit).Not()
		default:
			st.env[ins] = st.freshV(ins.Type(), "unop")
		}
	case *ssa.ChangeType:
		st.env[ins] = retype(st.val(ins.X), ins.Type())
	case *ssa.ChangeInterface:
		st.env[ins] = st.val(ins.X)
	case *ssa.Convert:
		st.env[ins] = e.convert(st, st.val(ins.X), ins.X.Type(), ins.Type())
	case *ssa.MakeInterface:
		st.env[ins] = Iface{dyn: ins.X.Type(), val: st.val(ins.X), nilL: litFalse}
	case *ssa.Extract:
		t, ok := st.val(ins.Tuple).(Tuple)
		if !ok {
			panic(undecided{"extract from an untracked tuple"})
		}
		st.env[ins] = t[ins.Index]
	case *ssa.Field:
		st.env[ins] = getPath(st.val(ins.X), fmt.Sprint(ins.Field))
	case *ssa.FieldAddr:
		p, ok := st.val(ins.X).(Ptr)
		if !ok {
			panic(undecided{"field of an untracked pointer"})
		}
		e.nonNil(st, fn, ins.Pos(), "field of "+ins.X.Name(), p.nilL)
		ft := under(p.typ).(*types.Struct).Field(ins.Field).Type()
		st.env[ins] = Ptr{obj: p.obj, path: joinPath(p.path, fmt.Sprint(ins.Field)), idx: p.idx, nilL: litFalse, typ: ft}
	case *ssa.IndexAddr:
		st.env[ins] = e.indexAddr(fn, st, ins)
	case *ssa.Index:
		switch x := st.val(ins.X).(type) {
		case *Atom: // string
			i := st.num(ins.Index)
			e.oblige(st, "index", fn, ins.Pos(), "string index", cmpLit(">=", i, IntN(0)), cmpLit("<", i, lenOf(x)))
			st.env[ins] = atomNum(fnAtom("byteAt", SInt, x, i))
		case Slice: // array
			i := st.num(ins.Index)
			e.oblige(st, "index", fn, ins.Pos(), "array index", cmpLit(">=", i, IntN(0)), cmpLit("<", i, x.len))
			st.env[ins] = st.readElem(st.obj(x.obj), Add(x.off, i), "", x.elem)
		default:
			panic(undecided{"index of an array value"})
		}
	case *ssa.Lookup:
		e.lookup(fn, st, ins)
	case *ssa.Slice:
		st.env[ins] = e.slice(fn, st, ins)
	case *ssa.Store:
		p, ok := st.val(ins.Addr).(Ptr)
		if !ok {
			panic(undecided{"store through an untracked pointer"})
		}
		e.nonNil(st, fn, ins.Pos(), "store through "+ins.Addr.Name(), p.nilL)
		if e.onStore != nil {
			e.onStore(st, ins, p)
		}
		e.changed(st, ins.Pos(), p.obj)
		st.store(p, st.val(ins.Val))
	case *ssa.MakeSlice:
		n, c := st.num(ins.Len), st.num(ins.Cap)
		e.oblige(st, "slice", fn, ins.Pos(), "make", cmpLit(">=", n, IntN(0)), cmpLit(">=", c, n))
		el := elemOf(ins.Type())
		o := st.newObj(&Obj{kind: OArr, typ: el, name: fnName(fn) + ".make", cap: c, cols: map[string][]seg{}})
		for _, l := range leaves(el) {
			o.cols[l.path] = mergeSegs([]seg{{n: c, val: zeroV(l.typ)}})
		}
		st.env[ins] = Slice{obj: o.id, len: n, cap: c, nilL: litFalse, elem: el}
	case *ssa.MakeMap:
		o := st.newObj(&Obj{kind: OMap, typ: ins.Type(), name: fnName(fn) + ".make"})
		st.env[ins] = MapV{obj: o.id, nilL: litFalse, typ: ins.Type()}
	case *ssa.MapUpdate:
		m, ok := st.val(ins.Map).(MapV)
		if !ok {
			panic(undecided{"update of an untracked map"})
		}
		e.oblige(st, "mapnil", fn, ins.Pos(), "write to a map", m.nilL.Not())
		k, v := st.val(ins.Key), st.val(ins.Value)
		if e.onMapSet != nil {
			e.onMapSet(st, ins, m, k, v)
		}
		o := st.obj(m.obj).clone()
		o.entries = append(o.entries, mapEntry{k, v})
		st.mem[o.id] = o
	case *ssa.MakeClosure:
		var b []V
		for _, x := range ins.Bindings {
			b = append(b, st.val(x))
		}
		st.env[ins] = FuncV{fn: ins.Fn.(*ssa.Function), bind: b}
	case *ssa.TypeAssert:
		e.typeAssert(fn, st, ins)
	case *ssa.Defer:
		d := deferred{call: &ins.Call}
		for _, a := range ins.Call.Args {
			d.args = append(d.args, st.val(a))
		}
		if ins.Call.IsInvoke() {
			d.recv = st.val(ins.Call.Value)
		} else if _, isB := ins.Call.Value.(*ssa.Builtin); !isB {
			d.recv = st.val(ins.Call.Value)
		}
		st.defers = append(st.defers, d)
	case *ssa.Range:
		st.env[ins] = Tuple{st.val(ins.X)}
	case *ssa.Next:
		tt := ins.Type().(*types.Tuple)
		var t Tuple
		for i := 0; i < tt.Len(); i++ {
			ty := tt.At(i).Type()
			if b, ok := ty.(*types.Basic); ok && b.Kind() == types.Invalid {
				t = append(t, nil)
				continue
			}
			t = append(t, st.freshV(ty, "next"))
		}
		st.env[ins] = t
	default:
		panic(undecided{fmt.Sprintf("unsupported construct %T in %s (%s)", ins, fnName(fn), e.prog.pos(ins.Pos()))})
	}
}

func isNamedExternal(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && !isRepoType(n)
}

func retype(v V, t types.Type) V {
	switch v := v.(type) {
	case *Struct:
		return &Struct{typ: t, f: v.f}
	case MapV:
		v.typ = t
		return v
	}
	return v
}

func (st *State) num(v ssa.Value) Num {
	n, ok := st.val(v).(Num)
	if !ok {
		panic(undecided{"numeric operation on an untracked value " + v.Name()})
	}
	return n
}

func lenOf(s *Atom) Num {
	if s.kind == KConst {
		return IntN(int64(len(s.name)))
	}
	if s.kind == KFn && s.name == "concat" {
		n := Num{}
		for _, t := range s.args {
			n = Add(n, lenOf(t.(*Atom)))
		}
		return n
	}
	if s.kind == KFn && s.name == "substr" {
		return Sub(s.args[2].(Num), s.args[1].(Num))
	}
	return atomNum(fnAtom("len", SInt, s))
}

func (e *Eng) binop(fn *ssa.Function, st *State, ins *ssa.BinOp) V {
	x, y := st.val(ins.X), st.val(ins.Y)
	switch a := x.(type) {
	case Num:
		b, ok := y.(Num)
		if !ok {
			break
		}
		isInt := sortOf(ins.X.Type()) == SInt
		switch ins.Op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.QUO:
			if isInt {
				e.oblige(st, "div", fn, ins.Pos(), "integer division", numLit(LNe, b))
				return e.idiv(st, a, b)
			}
			if e.onFDiv != nil && e.quiet == 0 {
				e.onFDiv(st, ins, b)
			}
			if b.IsZero() {
				return atomNum(fnAtom("div0", SReal, a))
			}
			if !st.f.prove(numLit(LNe, b)) {
				// Division of reals is only meaningful for a non-zero divisor;
				// keep the quotient formal.
				return Div(a, b)
			}
			return Div(a, b)
		case token.REM:
			e.oblige(st, "div", fn, ins.Pos(), "integer remainder", numLit(LNe, b))
			return e.imod(st, a, b)
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return cmpLit(ins.Op.String(), a, b)
		}
		return atomNum(fnAtom("op"+ins.Op.String(), sortOf(ins.Type()), a, b))
	case *Atom:
		b, ok := y.(*Atom)
		if !ok {
			break
		}
		switch ins.Op {
		case token.ADD:
			return concatS(a, b)
		case token.EQL:
			return e.strEq(st, a, b)
		case token.NEQ:
			return e.strEq(st, a, b).Not()
		default:
			return boolAtomLit(fnAtom("str"+ins.Op.String(), SBool, a, b), true)
		}
	case Lit:
		b, ok := y.(Lit)
		if !ok {
			break
		}
		var eq bool
		if st.choose(a) {
			eq = st.choose(b)
		} else {
			eq = !st.choose(b)
		}
		return boolLit(eq == (ins.Op == token.EQL))
	case *Struct:
		if b, ok := y.(*Struct); ok {
			return boolLit(st.structEq(a, b) == (ins.Op == token.EQL))
		}
	case Iface:
		if b, ok := y.(Iface); ok {
			var l Lit
			switch {
			case b.nilL.op == LTrue:
				l = a.nilL
			case a.nilL.op == LTrue:
				l = b.nilL
			default:
				l = boolAtomLit(fnAtom("ifaceEq", SBool, namedSym(vKey(a), SOpq), namedSym(vKey(b), SOpq)), true)
			}
			if ins.Op == token.NEQ {
				l = l.Not()
			}
			return l
		}
	case Ptr:
		if b, ok := y.(Ptr); ok {
			var l Lit
			switch {
			case b.nilL.op == LTrue:
				l = a.nilL
			case a.nilL.op == LTrue:
				l = b.nilL
			default:
				l = boolAtomLit(fnAtom("ptrEq", SBool, namedSym(vKey(a), SOpq), namedSym(vKey(b), SOpq)), true)
				if vKey(a) == vKey(b) {
					l = litTrue
				}
			}
			if ins.Op == token.NEQ {
				l = l.Not()
			}
			return l
		}
	case Slice:
		l := a.nilL
		if b, ok := y.(Slice); ok && l.op == LTrue {
			l = b.nilL
		}
		if ins.Op == token.NEQ {
			l = l.Not()
		}
		return l
	case MapV:
		l := a.nilL
		if b, ok := y.(MapV); ok && l.op == LTrue {
			l = b.nilL
		}
		if ins.Op == token.NEQ {
			l = l.Not()
		}
		return l
	}
	panic(undecided{fmt.Sprintf("operator %s on untracked values in %s (%s)", ins.Op, fnName(fn), e.prog.pos(ins.Pos()))})
}

// strEq compares strings; a concatenation with a non-empty constant part is
// never the empty string.
func (e *Eng) strEq(st *State, a, b *Atom) Lit {
	return strEq(a, b)
}

func (st *State) structEq(a, b *Struct) bool {
	for i := range a.f {
		switch x := a.f[i].(type) {
		case Num:
			if !st.choose(cmpLit("==", x, b.f[i].(Num))) {
				return false
			}
		case *Atom:
			if !st.choose(strEq(x, b.f[i].(*Atom))) {
				return false
			}
		case *Struct:
			if !st.structEq(x, b.f[i].(*Struct)) {
				return false
			}
		case Lit:
			y := b.f[i].(Lit)
			if st.choose(x) != st.choose(y) {
				return false
			}
		default:
			panic(undecided{"comparison of untracked struct fields"})
		}
	}
	return true
}

func (e *Eng) idiv(st *State, a, b Num) Num {
	if c, ok := b.ConstInt(); ok && c != 0 {
		// exact when every coefficient is divisible
		d := true
		for _, t := range a.p {
			if !new(big.Rat).Quo(t.c, big.NewRat(c, 1)).IsInt() {
				d = false
			}
		}
		if d {
			return Div(a, b)
		}
	}
	return idivN(a, b)
}

func (e *Eng) imod(st *State, a, b Num) Num {
	return imodN(a, b)
}

func (e *Eng) convert(st *State, v V, from, to types.Type) V {
	switch x := v.(type) {
	case Num:
		fb, ok1 := under(from).(*types.Basic)
		tb, ok2 := under(to).(*types.Basic)
		if !ok1 || !ok2 {
			break
		}
		fi, ti := fb.Info()&types.IsInteger != 0, tb.Info()&types.IsInteger != 0
		switch {
		case tb.Info()&types.IsString != 0:
			return fnAtom("runeString", SStr, x)
		case fi && ti:
			if intBits(tb) < intBits(fb) || (fb.Info()&types.IsUnsigned) != (tb.Info()&types.IsUnsigned) {
				if c, ok := x.ConstInt(); ok && c >= 0 && c < 1<<7 {
					return x
				}
				return atomNum(fnAtom("wrap:"+tb.Name(), SInt, x))
			}
			return x
		case fi && !ti:
			if tb.Kind() == types.Float32 {
				return f32(x)
			}
			return x
		case !fi && ti:
			if x.isInt() && intBits(tb) == 64 && tb.Info()&types.IsUnsigned == 0 {
				return x
			}
			if c, ok := x.Const(); ok {
				q := new(big.Int).Quo(c.Num(), c.Denom())
				return RatN(new(big.Rat).SetInt(q))
			}
			n := fnAtom("ftoi", SInt, x)
			if tb.Info()&types.IsUnsigned != 0 || intBits(tb) != 64 {
				n = fnAtom("wrap:"+tb.Name(), SInt, atomNum(n))
			}
			return atomNum(n)
		default:
			if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
				return f32(x)
			}
			return x
		}
	case *Atom:
		if sortOf(to) == SStr && x.sort == SStr {
			return x
		}
	case Slice:
		if sortOf(to) == SStr {
			return freshSym("string(bytes)", SStr)
		}
	}
	return st.freshV(to, "conv")
}

func f32(x Num) Num {
	if c, ok := x.Const(); ok {
		f, _ := c.Float32()
		r := new(big.Rat)
		r.SetFloat64(float64(f))
		return RatN(r)
	}
	return atomNum(fnAtom("f32", SReal, x))
}

func intBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (e *Eng) indexAddr(fn *ssa.Function, st *State, ins *ssa.IndexAddr) V {
	i := st.num(ins.Index)
	switch x := st.val(ins.X).(type) {
	case Slice:
		e.oblige(st, "index", fn, ins.Pos(), "index", cmpLit(">=", i, IntN(0)), cmpLit("<", i, x.len))
		if x.nilL.op == LTrue {
			panic(deadState{})
		}
		abs := Add(x.off, i)
		return Ptr{obj: x.obj, idx: &abs, nilL: litFalse, typ: x.elem}
	case Ptr:
		o := st.obj(x.obj)
		if o.kind != OArr {
			panic(undecided{"index of an untracked array"})
		}
		e.oblige(st, "index", fn, ins.Pos(), "array index", cmpLit(">=", i, IntN(0)), cmpLit("<", i, o.cap))
		return Ptr{obj: x.obj, idx: &i, nilL: litFalse, typ: o.typ}
	}
	panic(undecided{"index of an untracked value"})
}

func (e *Eng) slice(fn *ssa.Function, st *State, ins *ssa.Slice) V {
	switch x := st.val(ins.X).(type) {
	case *Atom:
		lo, hi := Num{}, lenOf(x)
		ln := lenOf(x)
		if ins.Low != nil {
			lo = st.num(ins.Low)
		}
		if ins.High != nil {
			hi = st.num(ins.High)
		}
		e.oblige(st, "slice", fn, ins.Pos(), "string slice", cmpLit(">=", lo, IntN(0)), cmpLit("<=", lo, hi), cmpLit("<=", hi, ln))
		if lo.IsZero() && NumEq(hi, ln) {
			return x
		}
		return fnAtom("substr", SStr, x, lo, hi)
	case Slice:
		lo, hi, mx := Num{}, x.len, x.cap
		if ins.Low != nil {
			lo = st.num(ins.Low)
		}
		if ins.High != nil {
			hi = st.num(ins.High)
		}
		ls := []Lit{cmpLit(">=", lo, IntN(0)), cmpLit("<=", lo, hi)}
		if ins.Max != nil {
			mx = st.num(ins.Max)
			ls = append(ls, cmpLit("<=", hi, mx), cmpLit("<=", mx, x.cap))
		} else {
			ls = append(ls, cmpLit("<=", hi, x.cap))
		}
		e.oblige(st, "slice", fn, ins.Pos(), "slice", ls...)
		if x.nilL.op == LTrue {
			return x
		}
		return Slice{obj: x.obj, off: Add(x.off, lo), len: Sub(hi, lo), cap: Sub(mx, lo), nilL: x.nilL, elem: x.elem}
	case Ptr: // *array
		o := st.obj(x.obj)
		if o.kind != OArr {
			panic(undecided{"slice of an untracked array"})
		}
		lo, hi := Num{}, o.cap
		if ins.Low != nil {
			lo = st.num(ins.Low)
		}
		if ins.High != nil {
			hi = st.num(ins.High)
		}
		e.oblige(st, "slice", fn, ins.Pos(), "array slice", cmpLit(">=", lo, IntN(0)), cmpLit("<=", lo, hi), cmpLit("<=", hi, o.cap))
		return Slice{obj: o.id, off: lo, len: Sub(hi, lo), cap: Sub(o.cap, lo), nilL: litFalse, elem: o.typ}
	}
	panic(undecided{"slice of an untracked value"})
}

func (e *Eng) lookup(fn *ssa.Function, st *State, ins *ssa.Lookup) {
	if x, ok := st.val(ins.X).(*Atom); ok {
		i := st.num(ins.Index)
		e.oblige(st, "index", fn, ins.Pos(), "string index", cmpLit(">=", i, IntN(0)), cmpLit("<", i, lenOf(x)))
		st.env[ins] = atomNum(fnAtom("byteAt", SInt, x, i))
		return
	}
	mt := under(ins.X.Type()).(*types.Map)
	m, _ := st.val(ins.X).(MapV)
	k := st.val(ins.Index)
	v, found := st.mapGet(m, k, mt.Elem())
	if ins.CommaOk {
		st.env[ins] = Tuple{v, found}
	} else {
		st.env[ins] = v
	}
}

// mapGet looks a key up: by cases on which of the tracked updates made the
// last entry for it; what a map held before those is unknown unless it was
// made empty here.
func (st *State) mapGet(m MapV, k V, elem types.Type) (V, Lit) {
	unknown := func() (V, Lit) {
		return st.freshV(elem, "lookup"), boolAtomLit(freshSym("found", SBool), true)
	}
	if m.obj == 0 {
		if m.nilL.op == LTrue {
			return zeroV(elem), litFalse
		}
		return unknown()
	}
	o := st.obj(m.obj)
	var open []mapEntry
	var eqs []Lit
	for i := len(o.entries) - 1; i >= 0; i-- {
		x := o.entries[i]
		l, ok := keyEq(x.k, k)
		if !ok {
			return unknown()
		}
		if l = st.f.normLit(l); l.op == LFalse {
			continue
		}
		open, eqs = append(open, x), append(eqs, l)
		if l.op == LTrue {
			break
		}
	}
	if len(open) > 40 {
		return unknown()
	}
	for i, x := range open {
		if st.choose(eqs[i]) {
			return x.v, litTrue
		}
	}
	if o.havoc || o.entry {
		return unknown()
	}
	return zeroV(elem), litFalse
}

// keyEq compares two map keys.
func keyEq(a, b V) (Lit, bool) {
	switch x := a.(type) {
	case Num:
		if y, ok := b.(Num); ok {
			return numLit(LEq, Sub(x, y)), true
		}
	case *Atom:
		if y, ok := b.(*Atom); ok {
			return strEq(x, y), true
		}
	}
	if vKey(a) == vKey(b) {
		return litTrue, true
	}
	return Lit{}, false
}

func (e *Eng) typeAssert(fn *ssa.Function, st *State, ins *ssa.TypeAssert) {
	x, ok := st.val(ins.X).(Iface)
	if !ok {
		panic(undecided{"assertion on an untracked interface"})
	}
	var hit Lit
	var v V
	_, toIface := under(ins.AssertedType).(*types.Interface)
	switch {
	case x.dyn != nil:
		if toIface {
			hit = boolLit(types.AssignableTo(x.dyn, ins.AssertedType))
			v = x
		} else {
			hit = boolLit(types.Identical(x.dyn, ins.AssertedType))
			v = x.val
		}
	case x.nilL.op == LTrue:
		hit = litFalse
	default:
		at := fnAtom("is:"+ins.AssertedType.String(), SBool, x.atom)
		hit = boolAtomLit(at, true)
		if !ins.CommaOk {
			break
		}
	}
	if hit.op == LB && ins.CommaOk {
		if st.choose(hit) {
			st.assume(x.nilL.Not())
			hit = litTrue
		} else {
			hit = litFalse
		}
	}
	if !ins.CommaOk {
		e.oblige(st, "assert", fn, ins.Pos(), "type assertion", hit)
	}
	if v == nil {
		if hit.op == LFalse {
			v = zeroV(ins.AssertedType)
		} else if toIface {
			v = x
		} else {
			v = st.ifaceContent(x, ins.AssertedType)
		}
	}
	if ins.CommaOk {
		if hit.op == LFalse {
			v = zeroV(ins.AssertedType)
		}
		st.env[ins] = Tuple{v, hit}
	} else {
		st.env[ins] = v
	}
}

// ifaceContent gives the value inside an unknown interface, the same value
// each time it is asserted to the same type.
func (st *State) ifaceContent(x Iface, t types.Type) V {
	key := "content " + x.atom.key + " " + t.String()
	if v, ok := st.ghost[key]; ok {
		return v
	}
	v := st.entryV(t, x.atom.name+".(value)", false)
	st.ghost[key] = v
	return v
}
