package main

// Loop analysis: a loop is summarised by an inductive description of the
// state at its head as a function of the iteration number t. Places that
// change get a closed form (linear, sum, max/min, fold, last value) when all
// back edges agree on it, otherwise a time-indexed name X[t]; appended or
// overwritten array elements are named by their final position. Facts about
// these names are candidates that are dropped until the rest is inductive.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type place struct {
	key string
	get func(*State) V
	set func(*State, V)
	sub bool // component of a slice; set by its owner
}

type pmodel struct {
	p     place
	init  V
	mode  string
	x     *Arr
	expr  func(t Num) V
	stepf func(t Num) Num // expr(t+1) in terms of expr(t), when it is not syntactic
	desc  string
	w     map[string]*Arr
	spare map[string]*Arr
	objID int
	w0    Num
	step  int64
	flat  seg
	cArr  *Arr
	tried map[string]bool
	live  map[int]bool // objects on entry that something else refers to
}

type cand struct {
	l    Lit
	q    *QF
	note string
}

func (c cand) key() string {
	if c.q != nil {
		return "Q" + c.q.k
	}
	return "L" + c.l.k
}

type gen struct {
	e        *Eng
	fn       *ssa.Function
	l        *loopInfo
	st0      *State
	adopted  map[*Arr]bool
	t        *Atom
	models   map[string]*pmodel
	order    []string
	cands    []cand
	dropped  map[string]bool
	cond     *Lit // phase condition at the head, over t
	own      map[*Arr]bool
	volatile map[*Arr]bool
	symMark  int
	arrMark  int
	depth    int
	peeled   int
	wantPeel bool
	once     bool // the early iterations are at most one
	noClosed map[string]bool
	dead     map[int]V
}

// deadCells finds local variables that every iteration assigns before it
// reads them (range variables); their value at the head does not matter.
func (g *gen) deadCells() map[int]V {
	if g.dead != nil {
		return g.dead
	}
	g.dead = map[int]V{}
	for v, pv := range g.st0.env {
		a, ok := v.(*ssa.Alloc)
		if !ok || g.l.body[a.Block()] {
			continue
		}
		p, ok := pv.(Ptr)
		if !ok || g.st0.mem[p.obj] == nil || g.st0.mem[p.obj].kind != OCell {
			continue
		}
		var def *ssa.Store
		good := true
		for _, r := range *a.Referrers() {
			if !g.l.body[r.Block()] {
				good = false
				break
			}
			if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) && def == nil {
				def = s
			}
		}
		if !good || def == nil {
			continue
		}
		for _, r := range *a.Referrers() {
			if r == ssa.Instruction(def) {
				continue
			}
			if r.Block() == def.Block() {
				if instrIndex(r) < instrIndex(def) {
					good = false
				}
			} else if !def.Block().Dominates(r.Block()) {
				good = false
			}
			switch x := r.(type) {
			case *ssa.UnOp, *ssa.FieldAddr:
			case *ssa.Store:
				if x.Addr != ssa.Value(a) {
					good = false
				}
			case *ssa.DebugRef:
			default:
				_ = x
				good = false
			}
		}
		if good {
			g.dead[p.obj] = g.st0.clone().freshV(g.st0.mem[p.obj].typ, "unset")
		}
	}
	return g.dead
}

// liveWithout finds the objects that may be reached at the head of the loop by
// anything but the value of one phi.
func (g *gen) liveWithout(key string) map[int]bool {
	after := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if !after[b] {
			after[b] = true
			for _, s := range b.Succs {
				walk(s)
			}
		}
	}
	walk(g.l.head)
	used := func(v ssa.Value) bool {
		rs := v.Referrers()
		if rs == nil {
			return true
		}
		for _, r := range *rs {
			if ph, ok := r.(*ssa.Phi); ok {
				for i, e := range ph.Edges {
					if e == v && after[ph.Block().Preds[i]] {
						return true
					}
				}
				continue
			}
			if after[r.Block()] {
				return true
			}
		}
		return false
	}
	live := map[int]bool{}
	st := g.st0
	for v, x := range st.env {
		if ph, ok := v.(*ssa.Phi); ok && "r:"+ph.Name() == key && ph.Block() == g.l.head {
			continue
		}
		if used(v) {
			reach(st, x, live)
		}
	}
	mark := 0
	if n := len(g.e.marks); n > 0 {
		mark = g.e.marks[n-1]
	}
	for id := range st.mem {
		if id <= mark {
			reach(st, Ptr{obj: id}, live)
		}
	}
	for _, x := range st.ghost {
		reach(st, x, live)
	}
	for _, d := range st.defers {
		for _, x := range d.args {
			reach(st, x, live)
		}
	}
	return live
}

func instrIndex(i ssa.Instruction) int {
	for k, x := range i.Block().Instrs {
		if x == i {
			return k
		}
	}
	return -1
}

func tN(g *gen) Num { return atomNum(g.t) }

func (g *gen) substT(to Num) substF { return inst1(g.t, to) }

// ---- places ----

func walkPlaces(key string, v V, get func(*State) V, set func(*State, V), out *[]place) {
	if s, ok := v.(*Struct); ok {
		for i := range s.f {
			i := i
			walkPlaces(fmt.Sprintf("%s.%d", key, i), s.f[i],
				func(st *State) V { return get(st).(*Struct).f[i] },
				func(st *State, x V) {
					o := get(st).(*Struct)
					c := &Struct{typ: o.typ, f: append([]V(nil), o.f...)}
					c.f[i] = x
					set(st, c)
				}, out)
		}
		return
	}
	if t, ok := v.(Tuple); ok {
		_ = t
		return
	}
	*out = append(*out, place{key: key, get: get, set: set})
}

func (g *gen) places(st *State) []place {
	var out []place
	for _, ins := range g.l.head.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		v, ok := st.env[ph]
		if !ok {
			continue
		}
		walkPlaces("r:"+ph.Name(), v, func(s *State) V { return s.env[ph] }, func(s *State, x V) { s.env[ph] = x }, &out)
	}
	managed := map[int]bool{}
	for id := range g.deadCells() {
		managed[id] = true
	}
	for _, m := range g.models {
		if m.objID != 0 {
			managed[m.objID] = true
		}
		if s0, ok := m.init.(Slice); ok && m.mode == "append" && m.live != nil {
			if po := st.mem[s0.obj]; po != nil {
				for _, id := range append([]int{s0.obj}, po.parents...) {
					if !m.live[id] {
						managed[id] = true
					}
				}
			}
		}
	}
	var ids []int
	for id := range st.mem {
		if !managed[id] {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		id := id
		o := st.mem[id]
		switch o.kind {
		case OCell:
			walkPlaces(fmt.Sprintf("m:%d", id), o.val, func(s *State) V { return s.mem[id].val }, func(s *State, x V) {
				c := s.mem[id].clone()
				c.val = x
				s.mem[id] = c
			}, &out)
		case OArr:
			for _, l := range leaves(o.typ) {
				p := l.path
				out = append(out, place{key: fmt.Sprintf("c:%d:%s", id, p), get: func(s *State) V { return s.mem[id].cols[p] }, set: func(s *State, x V) {
					c := s.mem[id].clone()
					c.cols[p] = x.([]seg)
					s.mem[id] = c
				}})
			}
		case OMap:
			out = append(out, place{key: fmt.Sprintf("M:%d", id), get: func(s *State) V { return s.mem[id] }, set: func(s *State, x V) { s.mem[id] = x.(*Obj) }})
		}
	}
	var gs []string
	for k := range st.ghost {
		if strings.HasPrefix(k, "content ") || strings.HasPrefix(k, "$") {
			continue
		}
		gs = append(gs, k)
	}
	sort.Strings(gs)
	for _, k := range gs {
		k := k
		walkPlaces("g:"+k, st.ghost[k], func(s *State) V { return s.ghost[k] }, func(s *State, x V) { s.ghost[k] = x }, &out)
	}
	return out
}

// canon simplifies a value with the facts of its state.
func canon(st *State, v V) V {
	switch v := v.(type) {
	case Num:
		return st.f.norm(v)
	case *Atom:
		if a, ok := st.f.normAtom(v).(*Atom); ok {
			return a
		}
		return v
	case Lit:
		if v.op != LTrue && v.op != LFalse {
			if st.f.proveN(v, 0) {
				return litTrue
			}
			if st.f.proveN(v.Not(), 0) {
				return litFalse
			}
			return st.f.normLit(v)
		}
		return v
	case Iface:
		if v.nilL.op != LTrue && v.nilL.op != LFalse && st.f.proveN(v.nilL, 0) {
			return Iface{nilL: litTrue}
		}
		return v
	case Ptr:
		if v.nilL.op != LTrue && v.nilL.op != LFalse {
			if st.f.proveN(v.nilL, 0) {
				v.nilL = litTrue
			} else if st.f.proveN(v.nilL.Not(), 0) {
				v.nilL = litFalse
			}
		}
		return v
	case Slice:
		v.off, v.len, v.cap = st.f.norm(v.off), st.f.norm(v.len), st.f.norm(v.cap)
		return v
	case []seg:
		var out []seg
		for _, s := range v {
			s.n, s.off = st.f.norm(s.n), st.f.norm(s.off)
			if s.arr == nil {
				s.val = canon(st, s.val)
			}
			out = append(out, s)
		}
		return mergeSegs(out)
	}
	return v
}

func placeKey(v V) string {
	switch v := v.(type) {
	case []seg:
		return segsKey(v)
	case *Obj:
		return fmt.Sprintf("%d.%v", len(v.entries), v.havoc)
	case Slice:
		return vKey(v)
	}
	return vKey(v)
}

func (e *Eng) loop(fn *ssa.Function, l *loopInfo, st *State) outcome {
	o := e.loopAt(fn, l, st, 0, 0)
	if e.onExit != nil && e.loopDepth == 0 {
		for _, x := range o.exits {
			e.onExit(x.st, l)
		}
		for _, x := range o.rets {
			e.onExit(x, l)
		}
	}
	return o
}

func (e *Eng) loopAt(fn *ssa.Function, l *loopInfo, st *State, depth, peeled int) outcome {
	if depth > 6 {
		panic(undecided{fmt.Sprintf("loop at %s has too many phases", e.prog.pos(loopPos(l)))})
	}
	e.loopCount++
	if e.onLoop != nil && depth == 0 {
		e.onLoop(st)
	}
	g := &gen{e: e, fn: fn, l: l, st0: st, models: map[string]*pmodel{}, dropped: map[string]bool{}, own: map[*Arr]bool{}, volatile: map[*Arr]bool{}, depth: depth, peeled: peeled, noClosed: map[string]bool{}}
	g.symMark = len(atomList)
	g.arrMark = arrCnt
	g.t = freshSym("t", SInt)
	g.t.clock = true
	if depth == 0 && g.trips() <= maxUnroll {
		if o, ok := g.unroll(); ok {
			return o
		}
	}
	return g.run()
}

// maxUnroll is the number of iterations up to which a counted loop is followed
// one by one.
const maxUnroll = 64

// trips gives the number of iterations of a loop that counts between constants
// in its header, or more than maxUnroll.
func (g *gen) trips() int64 {
	const many = maxUnroll + 1
	head := g.l.head
	br, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok {
		return many
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if !ok || c.Block() != head {
		return many
	}
	known := func(v ssa.Value) (int64, bool) {
		if _, isC := v.(*ssa.Const); !isC {
			ins, isI := v.(ssa.Instruction)
			if isI && g.l.body[ins.Block()] {
				return 0, false
			}
			if _, has := g.st0.env[v]; !has {
				return 0, false
			}
		}
		n, ok := g.st0.val(v).(Num)
		if !ok {
			return 0, false
		}
		return g.st0.f.norm(n).ConstInt()
	}
	for _, x := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
		bound, ok := known(x[1])
		if !ok {
			continue
		}
		v := x[0]
		if b, isB := v.(*ssa.BinOp); isB && g.l.body[b.Block()] {
			v = b.X
		}
		phi, isP := v.(*ssa.Phi)
		if !isP || phi.Block() != head {
			continue
		}
		i0, has := g.st0.env[phi]
		if !has {
			continue
		}
		n, isN := i0.(Num)
		if !isN {
			continue
		}
		first, ok := g.st0.f.norm(n).ConstInt()
		if !ok {
			continue
		}
		d := bound - first
		if d < 0 {
			d = -d
		}
		return d
	}
	return many
}

// unroll follows the iterations of a loop with few of them one by one.
func (g *gen) unroll() (out outcome, ok bool) {
	cur := []*State{g.st0}
	for i := 0; i <= maxUnroll+1 && len(cur) > 0; i++ {
		var backs []*State
		for _, st := range cur {
			h := st.clone()
			h.path = nil
			o := g.body(h, false)
			for _, r := range o.rets {
				r.path = append(append([]Lit(nil), st.path...), r.path...)
			}
			out.rets = append(out.rets, o.rets...)
			out.exits = append(out.exits, fixPath(st, o.exits)...)
			for _, b := range o.backs {
				if g.e.quiet == 0 {
					for _, f := range g.e.onBack {
						f(g, st, b)
					}
				}
				g.clean(b)
				b.path = append(append([]Lit(nil), st.path...), b.path...)
				backs = append(backs, b)
			}
		}
		cur = g.e.mergeAll(backs, 6)
	}
	if len(cur) > 0 {
		return outcome{}, false
	}
	g.e.record("loop", g.fn, loopPos(g.l), "terminates", true, "")
	return out, true
}

func loopPos(l *loopInfo) (p token.Pos) {
	for _, ins := range l.head.Instrs {
		if ins.Pos().IsValid() {
			return ins.Pos()
		}
	}
	for b := range l.body {
		for _, ins := range b.Instrs {
			if ins.Pos().IsValid() && (p == 0 || ins.Pos() < p) {
				p = ins.Pos()
			}
		}
	}
	return p
}

// ---- head state ----

func (g *gen) head(withCond bool) (h *State) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(deadState); ok {
				h = nil
				return
			}
			panic(r)
		}
	}()
	st := g.st0.clone()
	st.path = nil
	st.inFork = false
	t := tN(g)
	st.assume(cmpLit(">=", t, IntN(0)))
	for id, v := range g.deadCells() {
		c := st.mem[id].clone()
		c.val = v
		st.mem[id] = c
	}
	for _, k := range g.order {
		m := g.models[k]
		if m.p.sub {
			g.assumeInit(st, m)
			continue
		}
		m.p.set(st, g.valueAt(st, m, t))
		g.assumeInit(st, m)
	}
	for _, c := range g.cands {
		if c.q != nil {
			st.assumeQ(*c.q)
		} else {
			st.assume(c.l)
		}
	}
	if withCond && g.cond != nil {
		st.assume(*g.cond)
	}
	return st
}

func (g *gen) assumeInit(st *State, m *pmodel) {
	if m.mode != "fresh" || m.x == nil {
		return
	}
	switch i := m.init.(type) {
	case Num:
		a := selAtom(m.x, Num{})
		if i = st.f.norm(i); !occurs(i, a) && st.f.normAtom(a).Key() == atomNum(a).Key() {
			st.f.addEq(a, i)
			return
		}
		st.assume(numLit(LEq, Sub(atomNum(a), i)))
	case *Atom:
		st.assume(strEq(selAtom(m.x, Num{}), i))
	}
}

func (g *gen) numAt(key string, t Num) Num {
	m := g.models[key]
	if m.mode == "expr" {
		return m.expr(t).(Num)
	}
	return atomNum(selAtom(m.x, t))
}

func (g *gen) valueAt(st *State, m *pmodel, t Num) V {
	switch m.mode {
	case "expr":
		return m.expr(t)
	case "fresh":
		return leafFromAtom(selAtom(m.x, t))
	case "iface":
		return Iface{nilL: boolAtomLit(selAtom(m.w["nil"], t), true), atom: selAtom(m.w["val"], t)}
	case "map":
		c := st.mem[m.init.(*Obj).id].clone()
		c.entries, c.havoc = nil, true
		return c
	case "append", "slfresh":
		s0 := m.init.(Slice)
		ln := g.numAt(m.p.key+"#len", t)
		cp := g.numAt(m.p.key+"#cap", t)
		o := &Obj{id: m.objID, kind: OArr, typ: s0.elem, name: "loop " + m.p.key, cap: cp, cols: map[string][]seg{}}
		for _, l := range leaves(s0.elem) {
			var segs []seg
			if m.mode == "append" {
				segs = append(segs, st.sliceSegs(s0, l.path)...)
				segs = append(segs, seg{n: Sub(ln, s0.len), arr: m.w[l.path], off: s0.len})
				segs = append(segs, seg{n: Sub(cp, ln), arr: m.spare[l.path], off: ln})
			} else {
				segs = []seg{{n: cp, arr: m.spare[l.path]}}
			}
			o.cols[l.path] = mergeSegs(segs)
		}
		if s0.nilL.op != LTrue && s0.obj != 0 {
			if po := st.mem[s0.obj]; po != nil {
				if m.live == nil {
					m.live = g.liveWithout(m.p.key)
				}
				for _, id := range append([]int{s0.obj}, po.parents...) {
					if m.live[id] {
						o.parents = append(o.parents, id)
					}
				}
			}
		}
		st.mem[o.id] = o
		st.assume(cmpLit(">=", ln, IntN(0)))
		st.assume(cmpLit(">=", cp, ln))
		if m.mode == "append" {
			st.assume(cmpLit(">=", ln, s0.len))
		}
		nl := s0.nilL
		if nl.op == LTrue {
			nl = numLit(LEq, ln)
		}
		if m.mode == "slfresh" && s0.nilL.op != LFalse {
			nl = boolAtomLit(selAtom(m.w["nil"], t), true)
		}
		return Slice{obj: o.id, len: ln, cap: cp, nilL: nl, elem: s0.elem}
	case "window":
		s0 := m.init.(Slice)
		s := s0
		s.off, s.len, s.cap = g.numAt(m.p.key+"#off", t), g.numAt(m.p.key+"#len", t), g.numAt(m.p.key+"#cap", t)
		st.assume(cmpLit(">=", s.len, IntN(0)))
		st.assume(cmpLit(">=", s.cap, s.len))
		st.assume(cmpLit(">=", s.off, IntN(0)))
		if o := st.mem[s.obj]; o != nil {
			st.assume(cmpLit("<=", Add(s.off, s.cap), o.cap))
		}
		return s
	case "colfresh":
		s0 := m.init.([]seg)
		return []seg{{n: segsLen(s0), arr: m.cArr}}
	case "colw":
		total := segsLen(m.init.([]seg))
		f := m.flat
		if m.step > 0 {
			hi := Add(m.w0, t)
			return mergeSegs([]seg{{n: m.w0, arr: f.arr, off: f.off}, {n: t, arr: m.cArr, off: m.w0}, {n: Sub(total, hi), arr: f.arr, off: Add(f.off, hi)}})
		}
		lo := Sub(Add(m.w0, IntN(1)), t)
		hi := Add(m.w0, IntN(1))
		return mergeSegs([]seg{{n: lo, arr: f.arr, off: f.off}, {n: t, arr: m.cArr, off: lo}, {n: Sub(total, hi), arr: f.arr, off: Add(f.off, hi)}})
	}
	panic("valueAt " + m.mode)
}

// addModel starts tracking a varying place.
func (g *gen) addModel(p place, init V, backs []*State) {
	if _, ok := g.models[p.key]; ok {
		return
	}
	m := &pmodel{p: p, init: init, tried: map[string]bool{}}
	add := func(k string, m *pmodel) {
		g.models[k] = m
		g.order = append(g.order, k)
	}
	sub := func(name string, v0 Num, f func(Slice) Num) {
		sp := place{key: p.key + "#" + name, sub: true, get: func(s *State) V { return f(p.get(s).(Slice)) }}
		sm := &pmodel{p: sp, init: v0, mode: "fresh", tried: map[string]bool{}, x: g.newArr(p.key+"#"+name, SInt, types.Typ[types.Int])}
		add(sp.key, sm)
	}
	switch v := init.(type) {
	case Num:
		s := SReal
		if v.isInt() {
			s = SInt
			for _, b := range backs {
				if bn, ok := p.get(b).(Num); ok && !bn.isInt() {
					s = SReal
				}
			}
		}
		m.mode, m.x = "fresh", g.newArr(p.key, s, nil)
	case *Atom:
		m.mode, m.x = "fresh", g.newArr(p.key, v.sort, v.typ)
	case Lit:
		m.mode, m.x = "fresh", g.newArr(p.key, SBool, nil)
	case Iface:
		m.mode = "iface"
		m.w = map[string]*Arr{"nil": g.newArr(p.key+".nil", SBool, nil), "val": g.newArr(p.key+".val", SOpq, nil)}
	case *Obj:
		m.mode = "map"
	case []seg:
		m.mode = "colfresh"
		var typ types.Type
		srt := SReal
		for _, s := range v {
			if s.arr != nil {
				typ, srt = s.arr.typ, s.arr.sort
			} else {
				switch x := s.val.(type) {
				case *Atom:
					srt = x.sort
				case Num:
				case Lit:
					srt = SBool
				default:
					srt = SOpq
				}
			}
		}
		m.cArr = g.newArr(p.key, srt, typ)
		g.volatile[m.cArr] = true
	case Slice:
		same := true
		for _, b := range backs {
			if bs, ok := p.get(b).(Slice); !ok || bs.obj != v.obj {
				same = false
			}
		}
		if same && v.nilL.op != LTrue {
			m.mode = "window"
			add(p.key, m)
			sub("off", v.off, func(s Slice) Num { return s.off })
			sub("len", v.len, func(s Slice) Num { return s.len })
			sub("cap", v.cap, func(s Slice) Num { return s.cap })
			return
		}
		m.mode = "append"
		objCnt++
		m.objID = objCnt
		m.w, m.spare = map[string]*Arr{"nil": g.newArr(p.key+".nil", SBool, nil)}, map[string]*Arr{}
		for _, l := range leaves(v.elem) {
			m.w[l.path] = g.newArr("out."+leafName(v.elem, l.path), sortOf(l.typ), l.typ)
			m.spare[l.path] = g.newArr("spare", sortOf(l.typ), l.typ)
			g.volatile[m.spare[l.path]] = true
		}
		add(p.key, m)
		sub("len", v.len, func(s Slice) Num { return s.len })
		sub("cap", v.cap, func(s Slice) Num { return s.cap })
		return
	default:
		panic(undecided{fmt.Sprintf("a %T changes in the loop at %s", init, g.e.prog.pos(loopPos(g.l)))})
	}
	add(p.key, m)
}

func (g *gen) newArr(name string, s Sort, t types.Type) *Arr {
	a := newArr(name, s, t)
	g.own[a] = true
	return a
}

// body runs one iteration from h.
func (g *gen) body(h *State, quiet bool) outcome {
	if quiet {
		g.e.quiet++
		defer func() { g.e.quiet-- }()
	}
	if h == nil {
		return outcome{}
	}
	d := g.e.loopDepth
	g.e.loopDepth++
	defer func() { g.e.loopDepth = d }()
	o := g.e.region(g.fn, g.l.head, []*State{h.clone()}, g.l)
	var backs []*State
	for _, b := range o.backs {
		backs = append(backs, g.settle(h, b, 2)...)
	}
	o.backs = backs
	if g.e.onTick != nil && d == 0 {
		for _, b := range o.backs {
			g.e.onTick(b)
		}
	}
	return o
}

// settle tells apart the cases of b in which a value it writes comes from
// different segments of a list.
func (g *gen) settle(h, b *State, depth int) []*State {
	var open *Lit
	if depth > 0 {
		g.written(h, b, func(_ *Arr, _ Num, v V) {
			if n, ok := v.(Num); ok && open == nil {
				_, open = b.f.unview(b.f.norm(n))
			}
		})
	}
	if open == nil {
		return []*State{b}
	}
	var out []*State
	for _, l := range []Lit{*open, open.Not()} {
		x := b.clone()
		x.own()
		x.assumeSafe(l)
		if !x.f.dead {
			x.path = append(x.path[:len(x.path):len(x.path)], l)
			out = append(out, g.settle(h, x, depth-1)...)
		}
	}
	return out
}

func (g *gen) discover() (*State, []*State) {
	for round := 0; ; round++ {
		if round > 12 {
			panic(undecided{"loop places do not stabilise at " + g.e.prog.pos(loopPos(g.l))})
		}
		h := g.head(true)
		o := g.body(h, true)
		if len(o.backs) == 0 {
			return h, nil
		}
		added, slices := false, false
		for _, p := range g.places(h) {
			if _, ok := g.models[p.key]; ok {
				continue
			}
			if slices && strings.HasPrefix(p.key, "c:") {
				// storage of a slice that now has a model of its own
				continue
			}
			hv := p.get(h)
			for _, b := range o.backs {
				bv := p.get(b)
				if placeKey(canon(b, bv)) != placeKey(canon(b, hv)) {
					g.addModel(p, p.get(g.st0), o.backs)
					if g.models[p.key].mode == "append" {
						slices = true
					}
					added = true
					break
				}
			}
		}
		if !added {
			return h, o.backs
		}
	}
}

// foreign: the term mentions names created inside an iteration or volatile
// content.
func (g *gen) foreignAtom(a *Atom) bool {
	switch a.kind {
	case KSym:
		return a.id > g.symMark && a != g.t && a != qv && a != rv
	case KSel:
		if g.volatile[a.arr] {
			return true
		}
		if a.arr.view && !g.own[a.arr] && g.adopt(a.arr) {
			return false
		}
		return a.arr.id > g.arrMark && !g.own[a.arr]
	}
	return false
}

// adopt defines a view made in the loop body before the loop, when the viewed
// segments do not change in the loop.
func (g *gen) adopt(u *Arr) bool {
	if !u.view {
		return false
	}
	if ok, done := g.adopted[u]; done {
		return ok
	}
	ok := true
	still := func(t Term) bool { return !occurs(t, g.t) && !g.timeNames(t) && !g.foreign(t) }
	for _, s := range u.segs {
		if !still(s.n) || !still(s.off) {
			ok = false
		}
		if s.arr != nil {
			if g.own[s.arr] || g.volatile[s.arr] || s.arr.id > g.arrMark && !g.adopt(s.arr) {
				ok = false
			}
		} else if t, is := s.val.(Term); !is || !still(t) {
			ok = false
		}
	}
	if g.adopted == nil {
		g.adopted = map[*Arr]bool{}
	}
	g.adopted[u] = ok
	if ok {
		g.st0.flatView(u.segs)
	}
	return ok
}

func (g *gen) foreign(t Term) bool {
	bad := false
	deep(t, func(a *Atom) {
		if g.foreignAtom(a) {
			bad = true
		}
	})
	return bad
}

func (g *gen) foreignLit(l Lit) bool {
	bad := false
	l.deep(func(a *Atom) {
		if g.foreignAtom(a) {
			bad = true
		}
	})
	return bad
}

// varying: mentions names of this loop at times that depend on the clock.
func (g *gen) varying(t Term) bool {
	bad := false
	deep(t, func(a *Atom) {
		if a.kind == KSel && g.own[a.arr] && occurs(a.args[0], g.t) {
			bad = true
		}
	})
	return bad
}

// counter: an integer that depends on the clock only through names of this
// loop and counts.
func (g *gen) counter(n Num) bool {
	ok := n.isIntMonos()
	n.atoms(func(a *Atom) {
		if occurs(a, g.t) && a.kind != KInd && a.kind != KPrefix && !(a.kind == KSel && g.own[a.arr]) {
			ok = false
		}
	})
	return ok
}

// timeNames: mentions time-indexed names of this loop.
func (g *gen) timeNames(t Term) bool {
	bad := false
	deep(t, func(a *Atom) {
		if a.kind == KSel && g.own[a.arr] {
			bad = true
		}
	})
	return bad
}

func (g *gen) setExpr(k string, f func(Num) V, desc string) bool {
	m := g.models[k]
	// the closed form must hold on entry
	v0 := f(Num{})
	switch i := m.init.(type) {
	case Num:
		if !g.st0.f.prove(cmpLit("==", v0.(Num), i)) {
			return false
		}
	case *Atom:
		if !g.st0.f.prove(strEq(v0.(*Atom), i)) {
			return false
		}
	default:
		return false
	}
	m.mode, m.expr, m.desc, m.stepf = "expr", f, desc, nil
	return true
}

// refine replaces time-indexed names by closed forms; true when it changed one.
func (g *gen) refine(h *State, backs []*State) bool {
	t := tN(g)
	changed := false
	// 1: linear
	for _, k := range g.order {
		m := g.models[k]
		if m.mode != "fresh" || g.noClosed[k] {
			continue
		}
		i0, ok := m.init.(Num)
		if !ok {
			continue
		}
		x := atomNum(selAtom(m.x, t))
		var d Num
		good := true
		for j, b := range backs {
			bv, ok := m.p.get(b).(Num)
			if !ok {
				good = false
				break
			}
			dj := Sub(b.f.norm(bv), b.f.norm(x))
			if j == 0 {
				d = dj
			} else if !NumEq(d, dj) {
				if !b.f.prove(cmpLit("==", d, Sub(bv, x))) {
					good = false
					break
				}
			}
		}
		if !good || occurs(d, g.t) || g.timeNames(d) || g.foreign(d) {
			continue
		}
		if g.setExpr(k, func(t Num) V { return Add(i0, Mul(d, t)) }, "linear") {
			changed = true
		}
	}
	if changed {
		return true
	}
	// 2: other closed forms
	for _, k := range g.order {
		m := g.models[k]
		if m.mode == "colfresh" && !m.tried["w"] {
			if g.tryColWrite(m, backs) {
				return true
			}
			continue
		}
		if m.mode != "fresh" || g.noClosed[k] {
			continue
		}
		if a0, ok := m.init.(*Atom); ok {
			_ = a0
			if f := g.lastAtom(m, backs); f != nil {
				if g.setExpr(k, f, "last value") {
					return true
				}
				g.wantPeel = true
			}
			continue
		}
		i0, ok := m.init.(Num)
		if !ok {
			continue
		}
		xa := selAtom(m.x, t)
		x := atomNum(xa)
		var bs []Num
		for _, b := range backs {
			bs = append(bs, b.f.norm(m.p.get(b).(Num)))
		}
		if g.trySum(k, m, i0, x, bs, backs) {
			return true
		}
		if g.tryOver(k, m, i0, x, bs, backs) {
			return true
		}
		if g.tryLast(k, m, x, bs, backs) {
			return true
		}
		if !g.stored(h, m, backs) && g.tryFold(k, m, i0, xa, bs, backs) {
			return true
		}
	}
	return false
}

func (g *gen) lastAtom(m *pmodel, backs []*State) func(Num) V {
	var v *Atom
	for j, b := range backs {
		a, ok := m.p.get(b).(*Atom)
		if !ok {
			return nil
		}
		if n, ok := b.f.normAtom(a).(*Atom); ok {
			a = n
		}
		if j == 0 {
			v = a
		} else if v != a {
			return nil
		}
	}
	if v == nil || g.foreign(v) || g.timeNames(v) {
		return nil
	}
	return func(t Num) V {
		r, _ := substTerm(v, g.substT(Sub(t, IntN(1)))).(*Atom)
		return r
	}
}

func (g *gen) trySum(k string, m *pmodel, i0, x Num, bs []Num, backs []*State) bool {
	var ds []Num
	for _, b := range bs {
		d := Sub(b, x)
		if g.timeNames(d) || g.foreign(d) {
			return false
		}
		ds = append(ds, d)
	}
	bodies := []Num{}
	for _, d := range ds {
		if !d.IsZero() {
			bodies = append(bodies, d, posN(d), Neg(posN(Neg(d))), absN(d), Neg(absN(d)))
		}
	}
	// guarded: delta under one discriminating literal
	for j := range backs {
		if ds[j].IsZero() {
			continue
		}
		for _, l := range g.discr(backs, j) {
			if !g.foreignLit(l) && !g.litTime(l) {
				bodies = append(bodies, Mul(indAtom(l), ds[j]))
			}
		}
	}
	seen := map[string]bool{}
	for _, body := range bodies {
		if seen[body.Key()] {
			continue
		}
		seen[body.Key()] = true
		ok := true
		for j, b := range backs {
			if NumEq(ds[j], body) {
				continue
			}
			if !b.f.prove(cmpLit("==", ds[j], body)) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		v := freshSym("v", SInt)
		bodyV := SubstNum(body, g.substT(atomNum(v)))
		if g.setExpr(k, func(t Num) V { return Add(i0, SumN(bodyV, v, Num{}, t)) }, "sum") {
			return true
		}
	}
	return false
}

func (g *gen) tryOver(k string, m *pmodel, i0, x Num, bs []Num, backs []*State) bool {
	var bodies []Num
	for _, b := range bs {
		if NumEq(b, x) {
			continue
		}
		if g.timeNames(b) || g.foreign(b) {
			return false
		}
		bodies = append(bodies, b, absN(b))
	}
	seen := map[string]bool{}
	for _, body := range bodies {
		if seen[body.Key()] {
			continue
		}
		seen[body.Key()] = true
		for _, op := range []string{"max", "min"} {
			ok := true
			for j, b := range backs {
				if !b.f.prove(cmpLit("==", bs[j], max2(op, x, body))) {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			v := freshSym("v", SInt)
			bodyV := SubstNum(body, g.substT(atomNum(v)))
			// starts from the element before the first
			first := SubstNum(body, g.substT(IntN(-1)))
			if g.st0.f.prove(cmpLit("==", i0, first)) || g.st0.f.prove(cmpLit("==", i0, absEval(g.st0, first))) {
				f := func(t Num) V { return OverN(op, bodyV, v, IntN(-1), t) }
				if g.setExpr(k, f, op) {
					m.stepf = func(t Num) Num {
						return max2(op, f(t).(Num), SubstNum(bodyV, inst1(v, t)))
					}
					return true
				}
			}
			g.wantPeel = true
		}
	}
	return false
}

func absEval(st *State, n Num) Num { return st.f.norm(n) }

func (g *gen) tryLast(k string, m *pmodel, x Num, bs []Num, backs []*State) bool {
	var v Num
	found := false
	for j := range bs {
		// the facts of an outcome can hide the common form
		for _, c := range []Num{bs[j], m.p.get(backs[j]).(Num)} {
			if !found && !g.foreign(c) && !g.timeNames(c) {
				v, found = c, true
			}
		}
	}
	if !found {
		return false
	}
	for j, b := range bs {
		if !NumEq(v, b) && !backs[j].f.prove(cmpLit("==", v, b)) {
			return false
		}
	}
	f := func(t Num) V { return SubstNum(v, g.substT(Sub(t, IntN(1)))) }
	if g.setExpr(k, f, "last value") {
		return true
	}
	g.wantPeel = true
	return false
}

func (g *gen) tryFold(k string, m *pmodel, i0 Num, xa *Atom, bs []Num, backs []*State) bool {
	var body Num
	for j, b := range bs {
		if j == 0 {
			body = b
		} else if !NumEq(body, b) {
			return false
		}
	}
	prev := freshSym("prev", SReal)
	v := freshSym("v", SInt)
	bb := SubstNum(body, inst1(xa, atomNum(prev)))
	if !occurs(bb, prev) || g.timeNames(bb) {
		return false
	}
	bad := false
	deep(bb, func(a *Atom) {
		if a != prev && g.foreignAtom(a) {
			bad = true
		}
	})
	if bad {
		return false
	}
	bb = SubstNum(bb, g.substT(atomNum(v)))
	return g.setExpr(k, func(t Num) V { return FoldN(i0, bb, prev, v, Num{}, t) }, "fold")
}

// stored: every iteration also puts the next value of m into a list.
func (g *gen) stored(h *State, m *pmodel, backs []*State) bool {
	for _, b := range backs {
		found := false
		see := func(v V) {
			if n, ok := v.(Num); ok && NumEq(b.f.norm(n), b.f.norm(m.p.get(b).(Num))) {
				found = true
			}
		}
		g.written(h, b, func(_ *Arr, _ Num, v V) { see(v) })
		for _, k := range g.order {
			if c := g.models[k]; c.mode == "colfresh" {
				segs, _ := c.p.get(b).([]seg)
				for _, s := range segs {
					if s.arr == nil {
						see(s.val)
					}
				}
			}
		}
		if !found {
			return false
		}
	}
	return len(backs) > 0
}

// written lists the elements an iteration appends or writes.
func (g *gen) written(h, b *State, f func(w *Arr, idx Num, v V)) {
	t := tN(g)
	for _, k := range g.order {
		m := g.models[k]
		switch m.mode {
		case "append":
			tl, ok := g.tailOf(h, b, m)
			if !ok {
				continue
			}
			ln := g.numAt(k+"#len", t)
			if n, ok := tl.n.ConstInt(); ok && n <= 4 {
				for _, lf := range leaves(m.init.(Slice).elem) {
					for i := int64(0); i < n; i++ {
						f(m.w[lf.path], Add(ln, IntN(i)), b.readSegs(tl.cols[lf.path], IntN(i), &Obj{typ: lf.typ}))
					}
				}
			}
		case "colw":
			idx := Add(m.w0, Mul(IntN(m.step), t))
			f(m.cArr, idx, b.readSegs(m.p.get(b).([]seg), idx, &Obj{typ: types.Typ[types.Float64]}))
		}
	}
}

// tryColWrite recognises one write per iteration at a moving index.
func (g *gen) tryColWrite(m *pmodel, backs []*State) bool {
	m.tried["w"] = true
	var idx Num
	have := false
	type hit struct {
		b   *State
		pos Num
	}
	var hits []hit
	for _, b := range backs {
		segs := canon(b, m.p.get(b)).([]seg)
		if len(segs) == 1 && segs[0].arr == m.cArr && segs[0].off.IsZero() {
			continue
		}
		pos := Num{}
		n := 0
		for _, s := range segs {
			if s.arr == nil {
				if c, ok := s.n.ConstInt(); !ok || c != 1 {
					return false
				}
				n++
				hits = append(hits, hit{b, pos})
				if !have || !occurs(idx, g.t) {
					idx, have = pos, true
				}
			} else if s.arr != m.cArr {
				return false
			} else if !NumEq(s.off, pos) {
				// positions that the facts make equal
				if !b.f.prove(cmpLit("==", s.off, pos)) {
					return false
				}
				if n == 1 && !occurs(idx, g.t) && occurs(s.off, g.t) {
					idx = Sub(s.off, IntN(1))
				}
				pos = s.off
			}
			pos = Add(pos, s.n)
		}
		if n != 1 {
			return false
		}
	}
	if !have || g.timeNames(idx) || g.foreign(idx) {
		m.tried["w"] = !g.timeNames(idx) // retry once more is known
		return false
	}
	if !occurs(idx, g.t) {
		// a single iteration: the position is written as a constant
		once := true
		for _, h := range hits {
			once = once && h.b.f.prove(cmpLit("==", tN(g), Num{}))
		}
		if once {
			idx = Add(idx, tN(g))
		}
	}
	for _, h := range hits {
		if !NumEq(h.pos, idx) && !h.b.f.prove(cmpLit("==", h.pos, idx)) {
			return false
		}
	}
	c, ok := idx.linCoef(g.t)
	if !ok || !c.IsInt() {
		return false
	}
	s := c.Num().Int64()
	if s != 1 && s != -1 {
		return false
	}
	segs := m.init.([]seg)
	f := seg{}
	if len(segs) == 1 && segs[0].arr != nil {
		f = segs[0]
	} else {
		u := g.st0.flatView(segs)
		if u == nil {
			return false
		}
		f = seg{n: segsLen(segs), arr: u}
	}
	m.w0 = Sub(idx, Mul(IntN(s), tN(g)))
	m.step = s
	m.flat = f
	m.mode = "colw"
	delete(g.volatile, m.cArr)
	return true
}

// discr lists the path literals of back state j that do not hold in all others.
func (g *gen) discr(backs []*State, j int) []Lit {
	var out []Lit
	seen := map[string]bool{}
	for _, l := range backs[j].path {
		if seen[l.k] || l.op == LTrue {
			continue
		}
		seen[l.k] = true
		for i, b := range backs {
			if i != j && !b.f.proveN(l, 0) {
				out = append(out, l)
				break
			}
		}
	}
	return out
}

func (g *gen) litTime(l Lit) bool {
	bad := false
	l.deep(func(a *Atom) {
		if a.kind == KSel && g.own[a.arr] {
			bad = true
		}
	})
	return bad
}

// tails of an append model
type tail struct {
	n    Num
	cols map[string][]seg
}

// define checks the structural models on a back state and assumes the
// definitions of the names at t+1. It returns false when a model is broken.
func (g *gen) define(h, b *State) (broken string) {
	t := tN(g)
	t1 := Add(t, IntN(1))
	g.written(h, b, func(w *Arr, idx Num, v V) {
		// a value with a denominator is not recovered from its equations
		x, ok := v.(Num)
		if !ok || x.q == nil {
			return
		}
		for _, k := range g.order {
			if m := g.models[k]; m.mode == "fresh" {
				if y, ok := m.p.get(b).(Num); ok && NumEq(x, y) {
					b.assumeSafe(numLit(LEq, Sub(atomNum(selAtom(w, idx)), atomNum(selAtom(m.x, t1)))))
				}
			}
		}
	})
	for _, k := range g.order {
		m := g.models[k]
		bv := m.p.get(b)
		switch m.mode {
		case "expr":
			switch x := bv.(type) {
			case Num:
				want := m.expr(t1).(Num)
				if m.stepf != nil {
					want = m.stepf(t)
				}
				if !b.f.prove(cmpLit("==", x, want)) {
					g.e.log("closed form of %s: %v is not %v", k, x, want)
					return k
				}
			case *Atom:
				if !b.f.prove(strEq(x, m.expr(t1).(*Atom))) {
					return k
				}
			}
		case "fresh":
			switch x := bv.(type) {
			case Num:
				b.assumeSafe(numLit(LEq, Sub(atomNum(selAtom(m.x, t1)), x)))
			case *Atom:
				b.assumeSafe(strEq(selAtom(m.x, t1), x))
			case Lit:
				a := selAtom(m.x, t1)
				if b.f.prove(x) {
					b.assumeSafe(boolAtomLit(a, true))
				} else if b.f.prove(x.Not()) {
					b.assumeSafe(boolAtomLit(a, false))
				}
			}
		case "append":
			tl, ok := g.tailOf(h, b, m)
			if !ok {
				return k
			}
			ln := g.numAt(k+"#len", t)
			s0 := m.init.(Slice)
			bs := bv.(Slice)
			if s0.nilL.op == LTrue && bs.nilL.op != LFalse {
				if !b.f.prove(cmpLit(">", bs.len, IntN(0))) && placeKey(bs) != placeKey(m.p.get(h)) {
					return k
				}
			}
			if n, ok := tl.n.ConstInt(); ok && n <= 4 {
				for _, lf := range leaves(s0.elem) {
					for i := int64(0); i < n; i++ {
						v := b.readSegs(tl.cols[lf.path], IntN(i), &Obj{typ: lf.typ})
						g.defElem(b, m.w[lf.path], Add(ln, IntN(i)), v)
					}
				}
			} else if !tl.n.IsZero() {
				for _, lf := range leaves(s0.elem) {
					u := tl.cols[lf.path]
					if len(u) == 1 && u[0].arr != nil {
						q := atomNum(qv)
						v := segAt(u[0], Sub(q, ln))
						var l Lit
						switch x := v.(type) {
						case Num:
							l = numLit(LEq, Sub(atomNum(selAtom(m.w[lf.path], q)), x))
						case *Atom:
							l = strEq(selAtom(m.w[lf.path], q), x)
						default:
							continue
						}
						b.assumeQ(mkQF(ln, Add(ln, tl.n), nil, l, false))
					}
				}
			}
		case "colw":
			idx := Add(m.w0, Mul(IntN(m.step), t))
			segs := bv.([]seg)
			hs := m.p.get(h).([]seg)
			total := segsLen(hs)
			pre := func(st *State, s []seg, lo, hi Num) string {
				if NumEq(lo, hi) {
					return ""
				}
				return segsKey(canon(b, st.take(s, lo, hi)).([]seg))
			}
			same := func() bool {
				return pre(b, segs, Num{}, idx) == pre(b, hs, Num{}, idx) && pre(b, segs, Add(idx, IntN(1)), total) == pre(b, hs, Add(idx, IntN(1)), total)
			}
			if !same() && !(b.tighten(idx) && same()) {
				return k
			}
			v := b.readSegs(segs, idx, &Obj{typ: types.Typ[types.Float64]})
			g.defElem(b, m.cArr, idx, v)
		}
	}
	return ""
}

func (g *gen) defElem(b *State, w *Arr, idx Num, v V) {
	switch x := v.(type) {
	case Num:
		b.assumeSafe(numLit(LEq, Sub(atomNum(selAtom(w, idx)), x)))
	case *Atom:
		b.assumeSafe(strEq(selAtom(w, idx), x))
	case Lit:
		a := selAtom(w, idx)
		if b.f.prove(x) {
			b.assumeSafe(boolAtomLit(a, true))
		} else if b.f.prove(x.Not()) {
			b.assumeSafe(boolAtomLit(a, false))
		}
	}
}

// assumeSafe assumes without unwinding on contradiction.
func (st *State) assumeSafe(l Lit) {
	if l.op == LTrue {
		return
	}
	st.own()
	st.f.assume(l)
}

func (g *gen) tailOf(h, b *State, m *pmodel) (tail, bool) {
	hs, ok1 := m.p.get(h).(Slice)
	bs, ok2 := m.p.get(b).(Slice)
	if !ok1 || !ok2 || bs.nilL.op == LTrue {
		if ok2 && bs.nilL.op == LTrue && ok1 && hs.nilL.op == LTrue {
			return tail{}, true
		}
		return tail{}, false
	}
	bo := b.mem[bs.obj]
	ho := h.mem[hs.obj]
	if bo == nil || ho == nil {
		return tail{}, false
	}
	ln := b.f.norm(hs.len)
	tl := tail{n: Sub(b.f.norm(bs.len), ln), cols: map[string][]seg{}}
	if n, ok := tl.n.Const(); ok && n.Sign() < 0 {
		return tail{}, false
	}
	for _, lf := range leaves(bs.elem) {
		if !ln.IsZero() && !b.f.prove(cmpLit("==", hs.len, IntN(0))) {
			p1 := canon(b, b.take(bo.cols[lf.path], bs.off, Add(bs.off, hs.len))).([]seg)
			p2 := canon(b, b.take(ho.cols[lf.path], hs.off, Add(hs.off, hs.len))).([]seg)
			if segsKey(p1) != segsKey(p2) {
				return tail{}, false
			}
		}
		if !tl.n.IsZero() {
			tl.cols[lf.path] = b.take(bo.cols[lf.path], Add(bs.off, hs.len), Add(bs.off, bs.len))
		}
	}
	return tl, true
}

// degrade gives up a model.
func (g *gen) degrade(k string) {
	m := g.models[k]
	switch m.mode {
	case "expr":
		g.noClosed[k] = true
		m.mode = "fresh"
		if m.x == nil {
			panic(undecided{"loop model"})
		}
	case "append":
		m.mode = "slfresh"
		for _, w := range m.w {
			g.volatile[w] = true
		}
	case "colw":
		m.mode = "colfresh"
		g.volatile[m.cArr] = true
	}
	g.e.log("degrade %s", k)
}

func (g *gen) run() outcome {
	e := g.e
	var h *State
	var backs []*State
	h, backs = g.discover()
	if len(backs) == 0 {
		// the body never repeats
		if g.cond == nil {
			o := g.body(g.st0, e.quiet > 0)
			if len(o.backs) == 0 {
				return outcome{rets: o.rets, exits: fixPath(g.st0, o.exits)}
			}
		}
	}
	for i := 0; i < 30; i++ {
		if !g.refine(h, backs) {
			break
		}
		h, backs = g.discover()
	}
	// phases
	if g.depth < 5 && g.hasFresh() {
		if early := g.phaseLit(h, backs); early != nil {
			e.log("phase literal %v", *early)
			return g.split(*early)
		}
	}
	if g.depth < 5 && (g.hasFresh() || g.counting()) {
		if early := g.settling(h, backs); early != nil {
			e.log("phase literal %v", *early)
			return g.split(*early)
		}
	}
	if g.depth < 5 && g.hasFresh() {
		if g.wantPeel && g.peeled < 2 {
			e.log("peel")
			return g.peel()
		}
	}
	// candidates
	for round := 0; round < 3; round++ {
		if !g.gather(h, backs) {
			break
		}
		h, backs = g.houdini()
		if round < 2 && g.refine(h, backs) {
			h, backs = g.discover()
		}
	}
	h, backs = g.houdini()
	if e.debug {
		g.dumpModels("final")
		for _, c := range g.cands {
			if c.q != nil {
				fmt.Fprintf(os.Stderr, "   cand %v\n", *c.q)
			} else {
				fmt.Fprintf(os.Stderr, "   cand %v\n", c.l)
			}
		}
	}
	return g.finish(h)
}

func (g *gen) dumpModels(what string) {
	fmt.Fprintf(os.Stderr, "loop %s in %s: %s\n", g.e.prog.pos(loopPos(g.l)), fnName(g.fn), what)
	for _, k := range g.order {
		m := g.models[k]
		s := ""
		if m.mode == "expr" {
			s = vStr(m.expr(tN(g)))
		}
		fmt.Fprintf(os.Stderr, "   %s: %s %s %s\n", k, m.mode, m.desc, s)
	}
}

func (g *gen) hasFresh() bool {
	for _, m := range g.models {
		if m.mode == "fresh" && !strings.HasSuffix(m.p.key, "#cap") {
			return true
		}
	}
	return false
}

// counting: a list grows in some iterations only.
func (g *gen) counting() bool {
	for _, m := range g.models {
		if m.mode == "expr" && m.desc == "sum" && strings.HasSuffix(m.p.key, "#len") {
			return true
		}
	}
	return false
}

// phaseLit finds a branch condition that is monotone in t and separates the
// back edges; it returns the literal that holds in the early iterations.
func (g *gen) phaseLit(h *State, backs []*State) *Lit {
	if len(backs) < 2 {
		return nil
	}
	for j := range backs {
		for _, l := range g.discr(backs, j) {
			if l.op != LLe && l.op != LLt && l.op != LEq && l.op != LNe {
				continue
			}
			l = h.f.normLit(l)
			if l.op > LLt || l.op < LEq {
				continue
			}
			if g.litTime(l) || g.foreignLit(l) || l.n.q != nil {
				continue
			}
			c, ok := l.n.linCoef(g.t)
			if !ok || c.Sign() == 0 {
				continue
			}
			if nestedT(l, g.t) {
				continue
			}
			var early Lit
			switch l.op {
			case LLe, LLt:
				if c.Sign() > 0 {
					early = l
				} else {
					early = l.Not()
				}
			default:
				n := l.n
				if c.Sign() < 0 {
					n = Neg(n)
				}
				early = numLit(LLt, n)
				if g.st0.f.prove(early.Not().subst(g.substT(Num{}))) {
					early = numLit(LLe, n)
				}
			}
			// useless when never (or always) true
			if g.cond != nil && g.cond.k == early.k {
				continue
			}
			if g.st0.f.prove(early.Not().subst(g.substT(Num{}))) {
				continue
			}
			return &early
		}
	}
	return nil
}

// settling finds a branch condition on the current element that stays true
// once it is; it returns the literal that holds in the early iterations.
func (g *gen) settling(h *State, backs []*State) *Lit {
	if len(backs) < 2 {
		return nil
	}
	// conditions of every iteration
	var common []Lit
	for _, p := range backs[0].path {
		n := 0
		for _, b := range backs {
			for _, q := range b.path {
				if q.k == p.k {
					n++
					break
				}
			}
		}
		if n == len(backs) && !g.litTime(p) && !g.foreignLit(p) {
			common = append(common, p)
		}
	}
	for j := range backs {
		for _, l := range g.discr(backs, j) {
			l = h.f.normLit(l)
			if l.op > LLt || l.op < LEq || g.litTime(l) || g.foreignLit(l) || !l.occurs(g.t) {
				continue
			}
			late := []Lit{l}
			if l.op == LEq || l.op == LNe {
				late = []Lit{numLit(LLe, Neg(l.n)), numLit(LLe, l.n), numLit(LLt, Neg(l.n)), numLit(LLt, l.n)}
			}
			next := g.substT(Add(tN(g), IntN(1)))
			for _, x := range late {
				early := x.Not()
				if g.cond != nil && g.cond.k == early.k || h.f.prove(x) || h.f.prove(early) || g.st0.f.prove(x.subst(g.substT(Num{}))) {
					continue
				}
				y := h.clone()
				y.own()
				y.assumeSafe(x)
				for _, p := range common {
					y.assumeSafe(p)
					y.assumeSafe(p.subst(next))
				}
				if !y.f.dead && y.f.prove(x.subst(next)) {
					// no second iteration?
					z := g.st0.clone()
					z.own()
					for i := int64(0); i < 2; i++ {
						at := g.substT(IntN(i))
						z.assumeSafe(early.subst(at))
						for _, p := range common {
							z.assumeSafe(p.subst(at))
						}
					}
					g.once = z.f.dead || z.f.unsat(nil, 2)
					return &early
				}
			}
		}
	}
	return nil
}

func nestedT(l Lit, t *Atom) bool {
	bad := false
	l.n.atoms(func(a *Atom) {
		if a != t && occurs(a, t) {
			bad = true
		}
	})
	return bad
}

// split analyses the early iterations as a loop of their own and continues
// with the rest.
func (g *gen) split(early Lit) outcome {
	// only the first iteration?
	f := g.st0.clone()
	f.own()
	f.f.assume(early.subst(g.substT(IntN(1))))
	if g.once || f.f.dead || f.f.unsat(nil, 2) {
		if g.peeled < 3 {
			return g.peel()
		}
	}
	n := &gen{e: g.e, fn: g.fn, l: g.l, st0: g.st0, models: map[string]*pmodel{}, dropped: map[string]bool{}, own: map[*Arr]bool{}, volatile: map[*Arr]bool{}, depth: g.depth + 1, peeled: g.peeled, noClosed: map[string]bool{}}
	n.symMark = len(atomList)
	n.arrMark = arrCnt
	n.t = freshSym("t", SInt)
	n.t.clock = true
	c := early.subst(g.substT(tN(n)))
	n.cond = &c
	return n.run()
}

func (g *gen) peel() outcome {
	o := g.body(g.st0, false)
	out := outcome{rets: o.rets, exits: fixPath(g.st0, o.exits)}
	if g.e.quiet == 0 {
		for _, b := range o.backs {
			for _, f := range g.e.onBack {
				f(g, g.st0, b)
			}
		}
	}
	for _, b := range g.e.mergeAll(o.backs, 6) {
		g.clean(b)
		b.path = append(append([]Lit(nil), g.st0.path...), b.path...)
		r := g.e.loopAt(g.fn, g.l, b, g.depth+1, g.peeled+1)
		out.rets = append(out.rets, r.rets...)
		out.exits = append(out.exits, r.exits...)
	}
	return out
}

func fixPath(st0 *State, xs []exitState) []exitState {
	for _, x := range xs {
		if len(x.st.path) >= len(st0.path) && samePrefix(x.st.path, st0.path) {
			continue
		}
		x.st.path = append(append([]Lit(nil), st0.path...), x.st.path...)
	}
	return xs
}

func samePrefix(a, b []Lit) bool {
	for i := range b {
		if a[i].k != b[i].k {
			return false
		}
	}
	return true
}

// clean drops registers defined inside the loop.
func (g *gen) clean(st *State) {
	for v := range st.env {
		ins, ok := v.(ssa.Instruction)
		if !ok {
			continue
		}
		b := ins.Block()
		if b != nil && g.l.body[b] {
			if _, isPhi := v.(*ssa.Phi); isPhi && b == g.l.head {
				continue
			}
			delete(st.env, v)
		}
	}
}

func (g *gen) add(c cand) bool {
	k := c.key()
	if g.dropped[k] {
		return false
	}
	for _, o := range g.cands {
		if o.key() == k {
			return false
		}
	}
	g.cands = append(g.cands, c)
	return true
}

// gather proposes candidate facts from the back states.
func (g *gen) gather(h *State, backs []*State) bool {
	t := tN(g)
	q := atomNum(qv)
	toQ := g.substT(q)
	prev := g.substT(Sub(t, IntN(1)))
	added := false
	base := h
	if g.cond != nil {
		base = g.head(false)
	}
	addL := func(l Lit, note string) {
		if l.op == LTrue || l.op == LFalse || g.foreignLit(l) || base.f.proveN(l, 0) {
			return
		}
		if g.add(cand{l: l, note: note}) {
			added = true
		}
	}
	addQ := func(lo, hi Num, guards []Lit, body Lit, note string) {
		if body.op == LTrue || g.foreignLit(body) {
			return
		}
		for _, gd := range guards {
			if g.foreignLit(gd) {
				return
			}
		}
		qf := mkQF(lo, hi, guards, body, false)
		if g.add(cand{q: &qf, note: note}) {
			added = true
		}
	}
	ds := make([]*State, len(backs))
	for i, b := range backs {
		ds[i] = b.clone()
		ds[i].own()
		g.define(h, ds[i])
	}
	// path literals
	nothing := newFacts()
	seen := map[string]bool{}
	consider := func(l Lit, j int) {
		if l.op == LTrue || seen[l.k] || !l.occurs(g.t) || g.foreignLit(l) {
			return
		}
		seen[l.k] = true
		if nothing.proveN(l, 0) {
			return
		}
		common := true
		for i := range ds {
			if i != j && !ds[i].f.prove(l) {
				common = false
				break
			}
		}
		if !common {
			return
		}
		pure := true
		l.deep(func(a *Atom) {
			if a != g.t && a.kind != KSym && occurs(a, g.t) {
				pure = false
			}
		})
		if pure && (l.op == LLe || l.op == LLt) {
			addL(l.subst(prev), "bound")
		} else if pure && l.op == LNe {
			addL(numLit(LLe, l.n), "bound")
			addL(numLit(LLe, Neg(l.n)), "bound")
		} else {
			addQ(Num{}, t, nil, l.subst(toQ), "past")
			if l.op == LNe && g.counter(l.n) {
				addL(numLit(LLe, l.n), "bound")
				addL(numLit(LLe, Neg(l.n)), "bound")
			}
		}
	}
	for j := range ds {
		for _, l := range backs[j].path {
			if (l.op == LLe || l.op == LLt || l.op == LNe) && g.counter(l.n) {
				// a counter stops at the value it is compared with, or before it
				if l.op == LNe {
					addL(numLit(LLe, l.n), "limit")
					addL(numLit(LLe, Neg(l.n)), "limit")
				} else {
					addL(numLit(LLe, Sub(l.n, IntN(1))), "limit")
				}
			}
			consider(l, j)
			consider(backs[j].f.normLit(l), j)
		}
		for _, l := range backs[j].f.lits {
			consider(l, j)
		}
		// comparisons of the same operands under different branches
		for _, l := range backs[j].path {
			if l.op == LLt {
				consider(numLit(LLe, l.n), j)
			}
			if l.op == LEq {
				consider(numLit(LLe, l.n), j)
				consider(numLit(LLe, Neg(l.n)), j)
			}
		}
	}
	// definitions
	for j, b := range backs {
		guards := []Lit{}
		if len(backs) > 1 {
			for _, l := range g.discr(backs, j) {
				if g.foreignLit(l) {
					continue
				}
				guards = append(guards, l)
			}
		}
		defs := g.definitions(h, b)
		for _, d := range defs {
			eq := d.l
			if g.foreignLit(eq) {
				continue
			}
			all := true
			for i := range ds {
				if i != j && !ds[i].f.prove(eq) {
					all = false
					break
				}
			}
			if all {
				addQ(Num{}, t, nil, eq.subst(toQ), "def")
				continue
			}
			if len(guards) == 0 || len(guards) > 4 {
				continue
			}
			// smallest sufficient guard set: single literals first
			done := false
			for _, gd := range guards {
				ok := true
				for i := range ds {
					if i == j {
						continue
					}
					s := ds[i].f.clone()
					s.assume(gd)
					if !s.dead && !s.prove(eq) {
						ok = false
						break
					}
				}
				if ok {
					addQ(Num{}, t, []Lit{gd.subst(toQ)}, eq.subst(toQ), "def")
					done = true
					break
				}
			}
			if !done {
				var gs []Lit
				for _, gd := range guards {
					gs = append(gs, gd.subst(toQ))
				}
				addQ(Num{}, t, gs, eq.subst(toQ), "def")
			}
		}
	}
	g.relational(h, backs, ds, addL, addQ)
	return added
}

type defn struct{ l Lit }

// definitions lists the equations that define the names at t+1 in b.
func (g *gen) definitions(h, b *State) []defn {
	t := tN(g)
	t1 := Add(t, IntN(1))
	var out []defn
	eq := func(w *Arr, idx Num, v V) {
		switch x := v.(type) {
		case Num:
			l := numLit(LEq, Sub(atomNum(selAtom(w, idx)), x))
			if g.foreignLit(l) {
				y, _ := b.f.unview(b.f.norm(x))
				l = numLit(LEq, Sub(atomNum(selAtom(w, idx)), y))
			}
			out = append(out, defn{l})
		case *Atom:
			l := strEq(selAtom(w, idx), x)
			if g.foreignLit(l) {
				if n, ok := b.f.normAtom(x).(*Atom); ok {
					l = strEq(selAtom(w, idx), n)
				}
			}
			out = append(out, defn{l})
		case Lit:
			switch x.op {
			case LTrue:
				out = append(out, defn{boolAtomLit(selAtom(w, idx), true)})
			case LFalse:
				out = append(out, defn{boolAtomLit(selAtom(w, idx), false)})
			}
		}
	}
	for _, k := range g.order {
		if m := g.models[k]; m.mode == "fresh" && !strings.HasSuffix(k, "#cap") {
			eq(m.x, t1, m.p.get(b))
		}
	}
	g.written(h, b, func(w *Arr, idx Num, v V) {
		eq(w, idx, v)
		// the element is the next value of a variable
		x, ok := v.(Num)
		if !ok || w.sort != SReal {
			return
		}
		for _, k := range g.order {
			m := g.models[k]
			if m.mode != "fresh" || m.x.sort != SReal {
				continue
			}
			if n, ok := m.p.get(b).(Num); ok && NumEq(b.f.norm(n), b.f.norm(x)) {
				eq(w, idx, atomNum(selAtom(m.x, t1)))
			}
		}
	})
	return out
}

// relational proposes order relations between places.
func (g *gen) relational(h *State, backs, ds []*State, addL func(Lit, string), addQ func(lo, hi Num, guards []Lit, body Lit, note string)) {
	t := tN(g)
	prev := g.substT(Sub(t, IntN(1)))
	toQ := g.substT(atomNum(qv))
	type np struct {
		m  *pmodel
		x  Num
		i0 Num
	}
	var ns []np
	for _, k := range g.order {
		m := g.models[k]
		if m.mode != "fresh" {
			continue
		}
		if i0, ok := m.init.(Num); ok {
			ns = append(ns, np{m, atomNum(selAtom(m.x, t)), i0})
		}
	}
	kept := map[*Atom]bool{}
	for _, p := range ns {
		kept[selAtom(p.m.x, t)] = true
	}
	for _, p := range ns {
		if strings.HasSuffix(p.m.p.key, "#cap") {
			continue
		}
		// assigned together with another variable: a function of it
		for _, o := range ns {
			if o.m == p.m || o.m.x.sort != SInt {
				continue
			}
			for _, b := range backs {
				v, w := b.f.norm(p.m.p.get(b).(Num)), b.f.norm(o.m.p.get(b).(Num))
				c, ok := w.linCoef(g.t)
				if !ok || c.Cmp(ratOne) != 0 || g.varying(w) || g.varying(v) || !occurs(v, g.t) {
					continue
				}
				if off := Sub(w, t); !occurs(off, g.t) {
					addL(cmpLit("==", p.x, SubstNum(v, g.substT(Sub(o.x, off)))), "cached")
				}
			}
		}
		addL(cmpLit(">=", p.x, p.i0), "mono")
		addL(cmpLit("<=", p.x, p.i0), "mono")
		if p.m.x.sort == SInt {
			addL(cmpLit("<=", p.x, Add(p.i0, t)), "rate")
			addL(cmpLit(">=", p.x, Sub(p.i0, t)), "rate")
		} else {
			addL(cmpLit(">=", p.x, IntN(0)), "sign")
			addL(cmpLit("<=", p.x, IntN(0)), "sign")
		}
		// assigned an expression of t
		var es []Num
		for _, b := range backs {
			v := b.f.norm(p.m.p.get(b).(Num))
			if NumEq(v, p.x) || occurs(v, selAtom(p.m.x, t)) {
				continue
			}
			if !g.varying(v) && !g.foreign(v) {
				es = append(es, v)
			}
		}
		for _, e := range es {
			pe := SubstNum(e, prev)
			addL(cmpLit("<=", p.x, pe), "assigned")
			addL(cmpLit(">=", p.x, pe), "assigned")
			// the last values of the others have not changed since
			if off := Sub(e, t); !occurs(off, g.t) && p.m.x.sort == SInt {
				for _, k := range g.order {
					if o := g.models[k]; o.mode == "expr" && o.desc == "last value" {
						if v, ok := o.expr(Add(t, IntN(1))).(Num); ok && !g.varying(v) {
							then := SubstNum(v, g.substT(Sub(p.x, off)))
							addL(cmpLit("==", o.expr(t).(Num), then), "cached")
							addQ(Add(p.x, IntN(1)), Add(t, off), nil, cmpLit("==", SubstNum(v, g.substT(Sub(atomNum(qv), off))), then), "since")
						}
					}
				}
			}
			// since the last assignment: literals of the branches that keep x
			for _, b := range backs {
				if !NumEq(b.f.norm(p.m.p.get(b).(Num)), p.x) {
					continue
				}
				c, ok := e.linCoef(g.t)
				if !ok || c.Cmp(ratOne) != 0 {
					continue
				}
				// index j = e(t) in iteration t; the fact speaks about the
				// indices passed since the assignment: x < q < e(t)
				off := Sub(e, t) // e = t + off
				if occurs(off, g.t) {
					continue
				}
				var ls []Lit
				ls = append(ls, b.path...)
				for _, l := range ls {
					if !l.occurs(g.t) || g.foreignLit(l) {
						continue
					}
					for _, all := range []bool{false, true} {
						body := l.subst(func(a *Atom) (Term, bool) {
							if a == selAtom(p.m.x, t) || all && kept[a] {
								return wrapA(a), true // keep the place name at t
							}
							if a == g.t {
								return Sub(atomNum(qv), off), true
							}
							return nil, false
						})
						addQ(Add(p.x, IntN(1)), Add(t, off), nil, body, "since")
					}
				}
			}
		}
		// last element of an appended slice
		for _, k := range g.order {
			m := g.models[k]
			if m.mode != "append" {
				continue
			}
			ln := g.numAt(k+"#len", t)
			for _, lf := range leaves(m.init.(Slice).elem) {
				w := m.w[lf.path]
				if w.sort != p.m.x.sort {
					continue
				}
				hit := len(backs) > 0
				for i := range ds {
					l := cmpLit("==", ds[i].f.norm(p.m.p.get(backs[i]).(Num)), atomNum(selAtom(w, Sub(g.backLen(m, backs[i]), IntN(1)))))
					if !ds[i].f.prove(l) {
						hit = false
						break
					}
				}
				if hit {
					addL(cmpLit("==", p.x, atomNum(selAtom(w, Sub(ln, IntN(1))))), "last")
				}
			}
		}
	}
	for i := range ns {
		for j := range ns {
			if i == j || ns[i].m.x.sort != ns[j].m.x.sort {
				continue
			}
			if strings.HasSuffix(ns[i].m.p.key, "#cap") || strings.HasSuffix(ns[j].m.p.key, "#cap") {
				continue
			}
			d := Sub(ns[i].x, ns[j].x)
			d0 := Sub(ns[i].i0, ns[j].i0)
			if i < j {
				addL(cmpLit("==", d, d0), "pair")
			}
			addL(cmpLit("<=", d, d0), "pair")
		}
	}
	_ = toQ
}

func (g *gen) backLen(m *pmodel, b *State) Num {
	s, ok := m.p.get(b).(Slice)
	if !ok {
		return Num{}
	}
	return s.len
}

// houdini drops candidates until the remaining ones are inductive.
func (g *gen) houdini() (*State, []*State) {
	// initial: hold at t = 0
	zero := g.substT(Num{})
	init := g.st0.clone()
	init.own()
	for _, k := range g.order {
		g.assumeInit(init, g.models[k])
		m := g.models[k]
		if m.mode == "fresh" {
			if l, ok := m.init.(Lit); ok {
				a := selAtom(m.x, Num{})
				if l.op == LTrue {
					init.assumeSafe(boolAtomLit(a, true))
				} else if l.op == LFalse {
					init.assumeSafe(boolAtomLit(a, false))
				}
			}
		}
		if m.mode == "append" {
			// names of the elements present on entry are not used
			s0 := m.init.(Slice)
			if n, ok := s0.len.ConstInt(); ok && n > 0 && n <= 4 {
				o := init.mem[s0.obj]
				for _, lf := range leaves(s0.elem) {
					for i := int64(0); i < n; i++ {
						g.defElem(init, m.w[lf.path], IntN(i), init.readElem(o, Add(s0.off, IntN(i)), lf.path, lf.typ))
					}
				}
			}
		}
	}
	var keep []cand
	for _, c := range g.cands {
		ok := false
		if c.q != nil {
			ok = init.f.proveQ(c.q.subst(zero))
		} else {
			ok = init.f.prove(c.l.subst(zero))
		}
		if ok {
			keep = append(keep, c)
		} else {
			g.dropped[c.key()] = true
			if g.e.debug {
				if c.q != nil {
					fmt.Fprintf(os.Stderr, "   not initial: %v\n", c.q)
				} else {
					fmt.Fprintf(os.Stderr, "   not initial: %v\n", c.l)
				}
			}
		}
	}
	g.cands = keep
	next := g.substT(Add(tN(g), IntN(1)))
	for round := 0; round < 25; round++ {
		h, backs := g.discover()
		if h == nil {
			return nil, nil
		}
		bad := map[string]bool{}
		for _, b := range backs {
			d := b.clone()
			d.own()
			if br := g.define(h, d); br != "" {
				g.degrade(br)
				bad["$"] = true
				break
			}
			if d.f.dead {
				continue
			}
			for _, c := range g.cands {
				if bad[c.key()] {
					continue
				}
				ok := false
				if c.q != nil {
					ok = g.inductQ(d, *c.q, next)
				} else {
					ok = d.f.prove(c.l.subst(next))
				}
				if !ok {
					bad[c.key()] = true
					if g.e.debug {
						if c.q != nil {
							fmt.Fprintf(os.Stderr, "   not inductive: %v\n", c.q)
						} else {
							fmt.Fprintf(os.Stderr, "   not inductive: %v\n", c.l)
						}
					}
				}
			}
		}
		if len(bad) == 0 {
			return h, backs
		}
		if bad["$"] {
			// facts about a model that was given up
			var keep []cand
			for _, c := range g.cands {
				vol := false
				chk := func(a *Atom) {
					if a.kind == KSel && g.volatile[a.arr] {
						vol = true
					}
				}
				if c.q != nil {
					c.q.body.deep(chk)
					for _, x := range c.q.guards {
						x.deep(chk)
					}
				} else {
					c.l.deep(chk)
				}
				if !vol {
					keep = append(keep, c)
				}
			}
			g.cands = keep
			continue
		}
		var keep []cand
		for _, c := range g.cands {
			if bad[c.key()] {
				g.dropped[c.key()] = true
			} else {
				keep = append(keep, c)
			}
		}
		g.cands = keep
	}
	panic(undecided{"loop facts do not stabilise at " + g.e.prog.pos(loopPos(g.l))})
}

// inductQ: the quantified candidate holds at t+1.
func (g *gen) inductQ(d *State, q QF, next substF) bool {
	n := q.subst(next)
	if NumEq(n.hi, Add(q.hi, IntN(1))) && NumEq(n.lo, q.lo) && n.body.k == q.body.k && sameLits(n.guards, q.guards) {
		// only the new index q.hi remains
		f := d.f.clone()
		at := inst1(qv, q.hi)
		for _, gd := range q.guards {
			f.assume(gd.subst(at))
		}
		if f.dead {
			return true
		}
		return f.prove(q.body.subst(at))
	}
	return d.f.proveQ(n)
}

func sameLits(a, b []Lit) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].k != b[i].k {
			return false
		}
	}
	return true
}

// finish runs the body once more with the final invariant, recording
// obligations, and continues after the phase.
func (g *gen) finish(h *State) outcome {
	var out outcome
	if h != nil {
		o := g.body(h, false)
		out.rets = append(out.rets, o.rets...)
		out.exits = append(out.exits, fixPath(g.st0, o.exits)...)
		if g.e.quiet == 0 {
			if len(o.backs) > 0 {
				g.terminates(o.backs)
			}
			for _, b := range o.backs {
				for _, f := range g.e.onBack {
					f(g, h, b)
				}
			}
		}
	}
	for _, r := range out.rets {
		if !(len(r.path) >= len(g.st0.path) && samePrefix(r.path, g.st0.path)) {
			r.path = append(append([]Lit(nil), g.st0.path...), r.path...)
		}
	}
	if g.cond != nil {
		hh := g.head(false)
		if hh != nil {
			hh.own()
			hh.f.assume(g.cond.Not())
			if !hh.f.dead && !hh.f.unsat(nil, 2) {
				hh.path = append([]Lit(nil), g.st0.path...)
				// iterations so far are settled: the clock is an ordinary number
				g.clean(hh)
				g.t.clock = false
				r := g.e.loopAt(g.fn, g.l, hh, g.depth+1, g.peeled)
				out.rets = append(out.rets, r.rets...)
				out.exits = append(out.exits, r.exits...)
			}
		}
	}
	return out
}

// terminates records the termination obligation of the loop: the back edges
// that are not limited by the iteration count are removed one measure at a
// time. A measure is an integer that no remaining edge moves the other way;
// it removes the edges that move it strictly toward a fixed bound.
func (g *gen) terminates(backs []*State) {
	var left []*State
	for _, b := range backs {
		if g.cond == nil && !g.timeBound(b) {
			left = append(left, b)
		}
	}
	for again := true; again && len(left) > 0; {
		again = false
		for _, k := range g.order {
			m := g.models[k]
			if m.mode != "fresh" {
				continue
			}
			if _, isN := m.init.(Num); !isN || m.x.sort != SInt {
				continue
			}
			for _, up := range []bool{true, false} {
				if rest, fits := g.measure(m, up, left); fits && len(rest) < len(left) {
					left, again = rest, true
				}
			}
		}
	}
	ok := len(left) == 0
	why := ""
	if !ok {
		// driven by an external reader or a map: ends when its input ends
		for bl := range g.l.body {
			for _, ins := range bl.Instrs {
				switch x := ins.(type) {
				case *ssa.Call:
					if sc := x.Call.StaticCallee(); sc != nil && sc.String() == "(*bufio.Scanner).Scan" && g.exits(x) {
						ok = true
					}
				case *ssa.Next:
					for _, r := range *x.Referrers() {
						if ex, is := r.(*ssa.Extract); is && ex.Index == 0 && g.exits(ex) {
							ok = true
						}
					}
				}
			}
		}
		why = "no bound on the number of iterations"
	}
	g.e.record("loop", g.fn, loopPos(g.l), "terminates", ok, why)
}

// timeBound: the number of iterations before this back edge is bounded.
func (g *gen) timeBound(b *State) bool {
	for _, l := range b.f.lits {
		if l.op != LLe && l.op != LLt {
			continue
		}
		c, lin := l.n.linCoef(g.t)
		if !lin || c.Sign() <= 0 {
			continue
		}
		// names at fixed times are constant in the loop
		if rest := Sub(l.n, Mul(RatN(c), tN(g))); !occurs(rest, g.t) && !g.foreign(rest) {
			return true
		}
	}
	n := b.f.norm(tN(g))
	return !occurs(n, g.t) && !g.foreign(n)
}

// measure returns the back edges on which the place does not move strictly
// toward a fixed bound; fits is false if one moves it the other way.
func (g *gen) measure(m *pmodel, up bool, backs []*State) (rest []*State, fits bool) {
	at := selAtom(m.x, tN(g))
	x := atomNum(at)
	strict, weak := ">", ">="
	if !up {
		strict, weak = "<", "<="
	}
	for _, b := range backs {
		x1, _ := m.p.get(b).(Num)
		if !b.f.prove(cmpLit(weak, x1, x)) {
			return nil, false
		}
		done := false
		if b.f.prove(cmpLit(strict, x1, x)) {
			for _, l := range b.f.lits {
				if l.op != LLe && l.op != LLt {
					continue
				}
				c, lin := l.n.linCoef(at)
				if !lin || (up && c.Sign() <= 0) || (!up && c.Sign() >= 0) {
					continue
				}
				r := Sub(l.n, Mul(RatN(c), x))
				if !occurs(r, g.t) && !g.timeNames(r) && !g.foreign(r) {
					done = true
				}
			}
		}
		if !done {
			rest = append(rest, b)
		}
	}
	return rest, true
}

// exits: every iteration evaluates v and leaves the loop when it is false.
func (g *gen) exits(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		out := 1
		if n, ok := r.(*ssa.UnOp); ok && n.Op == token.NOT {
			if rs := *n.Referrers(); len(rs) == 1 {
				r = rs[0]
				out = 0
			}
		}
		i, ok := r.(*ssa.If)
		if !ok || g.l.body[i.Block().Succs[out]] {
			continue
		}
		every := true
		for _, p := range g.l.head.Preds {
			if g.l.body[p] && !i.Block().Dominates(p) {
				every = false
			}
		}
		if every {
			return true
		}
	}
	return false
}

var _ = big.NewRat

// tighten adds the inequalities about the names of n that can only hold with
// equality as equalities.
func (b *State) tighten(n Num) bool {
	b.own()
	names := map[*Atom]bool{}
	n.atoms(func(a *Atom) { names[a] = true })
	return b.f.tighten(names)
}

func (f *Facts) tighten(names map[*Atom]bool) bool {
	var eqs []Num
	for _, l := range f.lits {
		if l.op != LLe || !l.n.isIntMonos() {
			continue
		}
		about := false
		l.n.atoms(func(a *Atom) { about = about || names[a] })
		if about && f.prove(numLit(LEq, l.n)) {
			eqs = append(eqs, l.n)
		}
	}
	for _, q := range eqs {
		f.assume(numLit(LEq, q))
	}
	return len(eqs) > 0
}
