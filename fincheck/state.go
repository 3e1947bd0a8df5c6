package main

// Abstract values, memory and states.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is one of: Num, *Atom (string or opaque), Lit (boolean), Ptr, Slice,
// *Struct, MapV, Iface, FuncV, Tuple, IterV.
type V interface{}

type Ptr struct {
	obj  int
	path string // field path below the object (or element), "" for the whole
	idx  *Num   // element index for array objects
	nilL Lit
	typ  types.Type // pointed-to type
}

type Slice struct {
	obj           int
	off, len, cap Num
	nilL          Lit
	elem          types.Type
}

type Struct struct {
	typ types.Type
	f   []V
}

type MapV struct {
	obj  int
	nilL Lit
	typ  types.Type
}

type Iface struct {
	dyn  types.Type // nil when unknown or nil
	val  V
	nilL Lit
	atom *Atom // identity of an unknown dynamic value
}

type FuncV struct {
	fn   *ssa.Function
	bind []V
	atom *Atom
}

type Tuple []V

type OKind uint8

const (
	OCell OKind = iota
	OArr
	OMap
)

type seg struct {
	n   Num // number of elements
	arr *Arr
	off Num
	val V // when arr == nil: every element is val
}

type Obj struct {
	id      int
	kind    OKind
	typ     types.Type // cell type, element type or map type
	val     V
	cap     Num
	cols    map[string][]seg
	parents []int
	name    string
	entry   bool // existed before the analysed call
	entries []mapEntry
	havoc   bool
}

type mapEntry struct{ k, v V }

func (o *Obj) clone() *Obj {
	c := *o
	if o.cols != nil {
		c.cols = make(map[string][]seg, len(o.cols))
		for k, v := range o.cols {
			c.cols[k] = v
		}
	}
	c.entries = append([]mapEntry(nil), o.entries...)
	return &c
}

type deferred struct {
	fn   *ssa.Function
	call *ssa.CallCommon
	args []V
	recv V
}

type Event struct {
	kind string
	args []V
	pos  string
}

type State struct {
	mem    map[int]*Obj
	env    map[ssa.Value]V
	f      *Facts
	shared bool
	ghost  map[string]V
	defers []deferred
	ret    []V
	exit   string // position of the return
	events []Event
	script []int
	pos    int
	eng    *Eng
	fresh  []int // objects allocated since entry
	inFork bool
	path   []Lit // branch literals taken since the enclosing loop head
}

func (st *State) clone() *State {
	c := &State{mem: make(map[int]*Obj, len(st.mem)), env: make(map[ssa.Value]V, len(st.env)), f: st.f, shared: true, ghost: map[string]V{}, eng: st.eng, ret: st.ret, exit: st.exit}
	st.shared = true
	for k, v := range st.mem {
		c.mem[k] = v
	}
	for k, v := range st.env {
		c.env[k] = v
	}
	for k, v := range st.ghost {
		c.ghost[k] = v
	}
	c.defers = append([]deferred(nil), st.defers...)
	c.events = append([]Event(nil), st.events...)
	c.path = append([]Lit(nil), st.path...)
	return c
}

func (st *State) own() {
	if st.shared {
		st.f = st.f.clone()
		st.shared = false
	}
}

type deadState struct{}

func (st *State) assume(l Lit) {
	if l.op == LTrue {
		return
	}
	st.own()
	st.f.assume(l)
	if l.op == LB {
		if n, ok := st.eng.nilLen[l.a]; ok {
			st.f.assume(cmpLit("==", n, IntN(0)))
		}
	}
	if st.f.dead {
		panic(deadState{})
	}
}

func (st *State) assumeQ(q QF) {
	st.own()
	st.f.assumeQ(q)
}

// choose decides a literal, splitting the state when it is undetermined.
func (st *State) choose(l Lit) bool {
	switch l.op {
	case LTrue:
		return true
	case LFalse:
		return false
	}
	if n := st.f.normLit(l); n.op != LTrue && n.op != LFalse {
		l = n
	}
	if st.pos < len(st.script) {
		c := st.script[st.pos]
		st.pos++
		switch c {
		case 0:
			st.assume(l)
			st.path = append(st.path, l)
			return true
		case 1:
			st.assume(l.Not())
			st.path = append(st.path, l.Not())
			return false
		case 2:
			st.path = append(st.path, l)
			return true
		default:
			st.path = append(st.path, l.Not())
			return false
		}
	}
	if !st.inFork {
		if st.f.prove(l) {
			return true
		}
		if st.f.prove(l.Not()) {
			return false
		}
		panic(undecided{fmt.Sprintf("choice outside of a program point: %v", l)})
	}
	t := st.f.prove(l)
	if t {
		st.script = append(st.script, 2)
		st.pos++
		st.path = append(st.path, l)
		return true
	}
	if st.f.prove(l.Not()) {
		st.script = append(st.script, 3)
		st.pos++
		st.path = append(st.path, l.Not())
		return false
	}
	alt := append(append([]int(nil), st.script...), 1)
	st.eng.altScripts = append(st.eng.altScripts, alt)
	st.script = append(st.script, 0)
	st.pos++
	st.assume(l)
	st.path = append(st.path, l)
	return true
}

// fork runs f on copies of st, once per combination of undetermined choices.
func (e *Eng) fork(st *State, f func(*State)) []*State {
	saved := e.altScripts
	defer func() { e.altScripts = saved }()
	work := [][]int{{}}
	var out []*State
	for len(work) > 0 {
		sc := work[0]
		work = work[1:]
		e.altScripts = nil
		s := st.clone()
		s.script = append([]int(nil), sc...)
		s.pos = 0
		s.inFork = true
		alive := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					if _, isDead := r.(deadState); isDead {
						ok = false
						return
					}
					panic(r)
				}
			}()
			f(s)
			return true
		}()
		work = append(work, e.altScripts...)
		if alive && !s.f.dead {
			s.script = nil
			s.inFork = false
			out = append(out, s)
		}
		if len(out) > 400 {
			panic(undecided{"too many cases"})
		}
	}
	return out
}

type undecided struct{ msg string }

// ---- types ----

func under(t types.Type) types.Type { return t.Underlying() }

func isRepoType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return true
	}
	if n.Obj().Pkg() == nil {
		return true
	}
	p := n.Obj().Pkg().Path()
	return strings.HasPrefix(p, "github.com/vanclief/finmod") || strings.HasPrefix(p, "github.com/vanclief/ez") || strings.HasPrefix(p, "github.com/vanclief/state")
}

func sortOf(t types.Type) Sort {
	if b, ok := under(t).(*types.Basic); ok {
		switch {
		case b.Info()&types.IsInteger != 0:
			return SInt
		case b.Info()&types.IsFloat != 0:
			return SReal
		case b.Info()&types.IsString != 0:
			return SStr
		case b.Info()&types.IsBoolean != 0:
			return SBool
		}
	}
	return SOpq
}

// isStruct: a struct whose fields are tracked.
func isStruct(t types.Type) (*types.Struct, bool) {
	s, ok := under(t).(*types.Struct)
	if !ok || !isRepoType(t) {
		return nil, false
	}
	return s, true
}

// leaves lists the leaf paths of a type ("" for a leaf type).
type leaf struct {
	path string
	typ  types.Type
}

var leafMemo = map[types.Type][]leaf{}

func leaves(t types.Type) []leaf {
	if l, ok := leafMemo[t]; ok {
		return l
	}
	s, ok := isStruct(t)
	if !ok {
		return []leaf{{"", t}}
	}
	var r []leaf
	for i := 0; i < s.NumFields(); i++ {
		for _, l := range leaves(s.Field(i).Type()) {
			r = append(r, leaf{joinPath(strconv.Itoa(i), l.path), l.typ})
		}
	}
	leafMemo[t] = r
	return r
}

func joinPath(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return a + "." + b
}

func splitPath(p string) []int {
	if p == "" {
		return nil
	}
	var r []int
	for _, s := range strings.Split(p, ".") {
		i, _ := strconv.Atoi(s)
		r = append(r, i)
	}
	return r
}

func leafName(t types.Type, path string) string {
	var names []string
	for _, i := range splitPath(path) {
		s, ok := under(t).(*types.Struct)
		if !ok {
			break
		}
		names = append(names, s.Field(i).Name())
		t = s.Field(i).Type()
	}
	return strings.Join(names, ".")
}

// fieldPath finds the path of a (possibly dotted) field name.
func fieldPath(t types.Type, name string) string {
	var p []string
	for _, n := range strings.Split(name, ".") {
		s, ok := under(t).(*types.Struct)
		if !ok {
			panic(undecided{"no field " + name + " in " + t.String()})
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				p = append(p, strconv.Itoa(i))
				t = s.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			panic(undecided{"no field " + name + " in " + t.String()})
		}
	}
	return strings.Join(p, ".")
}

func getPath(v V, path string) V {
	for _, i := range splitPath(path) {
		s, ok := v.(*Struct)
		if !ok {
			panic(undecided{"field of untracked value"})
		}
		v = s.f[i]
	}
	return v
}

func setPath(v V, path []int, x V) V {
	if len(path) == 0 {
		return x
	}
	s, ok := v.(*Struct)
	if !ok {
		panic(undecided{"store to field of untracked value"})
	}
	c := &Struct{typ: s.typ, f: append([]V(nil), s.f...)}
	c.f[path[0]] = setPath(s.f[path[0]], path[1:], x)
	return c
}

func zeroV(t types.Type) V {
	if s, ok := isStruct(t); ok {
		r := &Struct{typ: t}
		for i := 0; i < s.NumFields(); i++ {
			r.f = append(r.f, zeroV(s.Field(i).Type()))
		}
		return r
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch sortOf(t) {
		case SInt, SReal:
			return Num{}
		case SStr:
			return strConst("")
		case SBool:
			return litFalse
		}
	case *types.Pointer:
		return Ptr{nilL: litTrue, typ: u.Elem()}
	case *types.Slice:
		return Slice{nilL: litTrue, elem: u.Elem()}
	case *types.Map:
		return MapV{nilL: litTrue, typ: t}
	case *types.Interface:
		return Iface{nilL: litTrue}
	case *types.Signature:
		return FuncV{}
	}
	return namedSymT("zero:"+t.String(), t)
}

func namedSymT(name string, t types.Type) *Atom {
	a := namedSym(name, sortOf(t))
	if a.typ == nil {
		a.typ = t
	}
	return a
}

func leafFromAtom(a *Atom) V {
	switch a.sort {
	case SInt, SReal:
		return atomNum(a)
	case SBool:
		return boolAtomLit(a, true)
	}
	return a
}

var objCnt int

func (st *State) newObj(o *Obj) *Obj {
	objCnt++
	o.id = objCnt
	st.mem[o.id] = o
	return o
}

// entryV makes an unknown value of type t named name.
func (st *State) entryV(t types.Type, name string, nonNil bool) V {
	e := st.eng
	if s, ok := isStruct(t); ok {
		r := &Struct{typ: t}
		for i := 0; i < s.NumFields(); i++ {
			r.f = append(r.f, st.entryV(s.Field(i).Type(), name+"."+s.Field(i).Name(), false))
		}
		return r
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		nl := litFalse
		if !nonNil {
			nl = boolAtomLit(namedSym(name+" is nil", SBool), true)
		}
		if _, ok := isStruct(u.Elem()); ok || !isNamedOpaque(u.Elem()) {
			o := st.newObj(&Obj{kind: OCell, typ: u.Elem(), name: "*" + name, entry: true})
			o.val = st.entryV(u.Elem(), name, false)
			return Ptr{obj: o.id, nilL: nl, typ: u.Elem()}
		}
		o := st.newObj(&Obj{kind: OCell, typ: u.Elem(), name: "*" + name, entry: true, val: namedSymT(name+".*", u.Elem())})
		return Ptr{obj: o.id, nilL: nl, typ: u.Elem()}
	case *types.Slice:
		return st.entrySlice(u.Elem(), name)
	case *types.Map:
		o := st.newObj(&Obj{kind: OMap, typ: t, name: name, entry: true, havoc: true})
		return MapV{obj: o.id, nilL: boolAtomLit(namedSym(name+" is nil", SBool), true), typ: t}
	case *types.Interface:
		return Iface{nilL: boolAtomLit(namedSym(name+" is nil", SBool), true), atom: namedSym(name, SOpq)}
	case *types.Signature:
		return FuncV{atom: namedSym(name, SOpq)}
	}
	_ = e
	return leafFromAtom(namedSymT(name, t))
}

func isNamedOpaque(t types.Type) bool {
	_, isS := under(t).(*types.Struct)
	return isS && !isRepoType(t)
}

func (st *State) entrySlice(elem types.Type, name string) Slice {
	o := st.newObj(&Obj{kind: OArr, typ: elem, name: name, entry: true, cols: map[string][]seg{}})
	ln := namedSym("len("+name+")", SInt)
	cp := namedSym("cap("+name+")", SInt)
	o.cap = atomNum(cp)
	for _, l := range leaves(elem) {
		nm := name
		if l.path != "" {
			nm += "." + leafName(elem, l.path)
		}
		o.cols[l.path] = []seg{{n: o.cap, arr: namedArr(nm, sortOf(l.typ), l.typ)}}
	}
	nl := namedSym(name+" is nil", SBool)
	st.own()
	st.f.assume(cmpLit(">=", atomNum(ln), IntN(0)))
	st.f.assume(cmpLit(">=", atomNum(cp), atomNum(ln)))
	st.eng.nilLen[nl] = atomNum(ln)
	return Slice{obj: o.id, len: atomNum(ln), cap: atomNum(cp), nilL: boolAtomLit(nl, true), elem: elem}
}

// freshV makes an unknown value of type t (results of unmodelled operations).
func (st *State) freshV(t types.Type, name string) V {
	symCnt++
	return st.entryV(t, fmt.Sprintf("%s'%d", name, symCnt), false)
}

// ---- memory access ----

func (st *State) obj(id int) *Obj {
	o := st.mem[id]
	if o == nil {
		panic(undecided{"access to an untracked object"})
	}
	return o
}

func (st *State) load(p Ptr) V {
	o := st.obj(p.obj)
	switch o.kind {
	case OCell:
		return getPath(o.val, p.path)
	case OArr:
		if p.idx == nil {
			// a copy that nothing writes
			c := o.clone()
			c.name = "copy of " + o.name
			c = st.newObj(c)
			return Slice{obj: c.id, len: c.cap, cap: c.cap, nilL: litFalse, elem: c.typ}
		}
		return st.readElem(o, *p.idx, p.path, p.typ)
	}
	panic(undecided{"load from a map object"})
}

// readElem reads the value at path of element idx (absolute index).
func (st *State) readElem(o *Obj, idx Num, path string, t types.Type) V {
	if s, ok := isStruct(t); ok {
		r := &Struct{typ: t}
		for i := 0; i < s.NumFields(); i++ {
			r.f = append(r.f, st.readElem(o, idx, joinPath(path, strconv.Itoa(i)), s.Field(i).Type()))
		}
		return r
	}
	segs, ok := o.cols[path]
	if !ok {
		panic(undecided{"unknown column " + path + " of " + o.name})
	}
	return st.readSegs(segs, idx, o)
}

func (st *State) readSegs(segs []seg, idx Num, o *Obj) V {
	start := Num{}
	flat := hasClock(idx) || !st.inFork
	for i, s := range segs {
		end := Add(start, s.n)
		if i == len(segs)-1 {
			return segAt(s, Sub(idx, start))
		}
		l := cmpLit("<", idx, end)
		if flat {
			if st.f.prove(l) {
				return segAt(s, Sub(idx, start))
			}
			if !st.f.prove(l.Not()) {
				if u := st.flatView(segs); u != nil {
					return leafFromAtom(selAtom(u, idx))
				}
				flat = false
			}
		}
		if !flat && st.choose(l) {
			return segAt(s, Sub(idx, start))
		}
		start = end
	}
	// an empty array: the bounds obligation has already failed
	return leafFromAtom(freshSym("oob", sortOf(o.typ)))
}

// unview replaces elements of views by those of the viewed segments, where
// the facts tell which segment it is; open is a comparison that would tell
// it for another one.
func (f *Facts) unview(n Num) (r Num, open *Lit) {
	for i := 0; i < 4; i++ {
		m := SubstNum(n, func(a *Atom) (Term, bool) {
			if a.kind != KSel || !a.arr.view {
				return nil, false
			}
			idx := a.args[0].(Num)
			start := Num{}
			for i, s := range a.arr.segs {
				end := Add(start, s.n)
				l := cmpLit("<", idx, end)
				if i == len(a.arr.segs)-1 || f.prove(l) {
					if s.arr == nil {
						t, ok := s.val.(Num)
						return t, ok
					}
					return atomNum(selAtom(s.arr, Add(s.off, Sub(idx, start)))), true
				}
				if !f.prove(l.Not()) {
					open = &l
					break
				}
				start = end
			}
			return nil, false
		})
		if NumEq(m, n) {
			break
		}
		n = m
	}
	return n, open
}

func segAt(s seg, rel Num) V {
	if s.arr == nil {
		return s.val
	}
	return leafFromAtom(selAtom(s.arr, Add(s.off, rel)))
}

func (st *State) store(p Ptr, v V) {
	o := st.obj(p.obj)
	c := o.clone()
	switch o.kind {
	case OCell:
		c.val = setPath(o.val, splitPath(p.path), v)
	case OArr:
		if p.idx == nil {
			x, ok := v.(Slice)
			if !ok {
				panic(undecided{"store of an untracked array"})
			}
			for _, l := range leaves(o.typ) {
				c.cols[l.path] = st.sliceSegs(x, l.path)
			}
			st.poison(o, nil)
			break
		}
		st.writeElem(c, *p.idx, p.path, p.typ, v)
		st.poison(o, nil)
	default:
		panic(undecided{"store to a map object"})
	}
	st.mem[o.id] = c
}

func (st *State) writeElem(c *Obj, idx Num, path string, t types.Type, v V) {
	if s, ok := isStruct(t); ok {
		sv, ok := v.(*Struct)
		if !ok {
			panic(undecided{"store of an untracked struct"})
		}
		for i := 0; i < s.NumFields(); i++ {
			st.writeElem(c, idx, joinPath(path, strconv.Itoa(i)), s.Field(i).Type(), sv.f[i])
		}
		return
	}
	segs, ok := c.cols[path]
	if !ok {
		panic(undecided{"unknown column " + path})
	}
	if st.holds(segs, idx, v) {
		return
	}
	c.cols[path] = st.splice(segs, idx, IntN(1), []seg{{n: IntN(1), val: v}})
}

// holds: v is what segs hold at idx already.
func (st *State) holds(segs []seg, idx Num, v V) bool {
	if n, ok := v.(Num); ok {
		is := false
		n.atoms(func(a *Atom) {
			is = is || a.kind == KSel && a.arr.view && NumEq(n, atomNum(a)) && NumEq(a.args[0].(Num), idx) && segsKey(a.arr.segs) == segsKey(segs)
		})
		if is {
			return true
		}
	}
	start := Num{}
	for i, s := range segs {
		end := Add(start, s.n)
		l := cmpLit("<", idx, end)
		if i == len(segs)-1 || st.f.prove(l) {
			if s.arr == nil {
				return false
			}
			return vKey(canon(st, v)) == vKey(canon(st, segAt(s, Sub(idx, start))))
		}
		if !st.f.prove(l.Not()) {
			return false
		}
		start = end
	}
	return false
}

// poison forgets the parents an appended slice may share storage with.
func (st *State) poison(o *Obj, seen map[int]bool) {
	for _, pid := range o.parents {
		if seen == nil {
			seen = map[int]bool{}
		}
		if seen[pid] {
			continue
		}
		seen[pid] = true
		p, ok := st.mem[pid]
		if !ok {
			continue
		}
		c := p.clone()
		for _, l := range leaves(p.typ) {
			c.cols[l.path] = []seg{{n: p.cap, arr: newArr("overwritten "+p.name, sortOf(l.typ), l.typ)}}
		}
		st.mem[pid] = c
		st.poison(p, seen)
	}
}

func hasClock(n Num) bool {
	found := false
	n.atoms(func(a *Atom) {
		if a.clock {
			found = true
		}
	})
	return found
}

// flatView names the concatenation of segs by one array, defined by
// quantified facts.
func (st *State) flatView(segs []seg) *Arr {
	var typ types.Type
	srt := Sort(99)
	for _, s := range segs {
		if s.arr != nil {
			typ, srt = s.arr.typ, s.arr.sort
		} else {
			switch x := s.val.(type) {
			case Num:
				if srt == 99 {
					srt = SReal
				}
			case *Atom:
				if srt == 99 {
					srt = x.sort
				}
			default:
				return nil
			}
		}
	}
	if srt != SInt && srt != SReal && srt != SStr {
		return nil
	}
	u := namedArr("view:"+segsKey(segs), srt, typ)
	u.view, u.segs = true, segs
	start := Num{}
	q := atomNum(qv)
	for _, s := range segs {
		end := Add(start, s.n)
		one, isC := s.n.ConstInt()
		eq := func(at Num, v V) Lit {
			switch x := v.(type) {
			case Num:
				return numLit(LEq, Sub(atomNum(selAtom(u, at)), x))
			case *Atom:
				return strEq(selAtom(u, at), x)
			}
			return litTrue
		}
		if isC && one == 1 {
			st.assume(eq(start, segAt(s, Num{})))
		} else {
			st.assumeQ(mkQF(start, end, nil, eq(q, segAt(s, Sub(q, start))), false))
		}
		start = end
	}
	return u
}

// take returns the segments covering [lo,hi) of segs.
func (st *State) take(segs []seg, lo, hi Num) []seg {
	if len(segs) > 1 && (!st.inFork || hasClock(lo) || hasClock(hi)) && !st.determined(segs, lo, hi) {
		if u := st.flatView(segs); u != nil {
			return []seg{{n: Sub(hi, lo), arr: u, off: lo}}
		}
	}
	var out []seg
	start := Num{}
	if st.f.prove(cmpLit("==", lo, hi)) {
		return nil
	}
	for i, s := range segs {
		end := Add(start, s.n)
		last := i == len(segs)-1
		// skip segments that end at or before lo
		if !last && !NumEq(lo, start) && (st.f.prove(cmpLit("<=", end, lo)) || !st.f.prove(cmpLit(">=", end, lo)) && st.choose(cmpLit("<=", end, lo))) {
			start = end
			continue
		}
		if last && !NumEq(lo, start) && len(out) == 0 && NumEq(end, lo) {
			break
		}
		a := start
		if len(out) == 0 {
			a = lo
		}
		// does the range end inside this segment?
		if last || NumEq(hi, end) || st.f.prove(cmpLit("<=", hi, end)) || !st.f.prove(cmpLit(">=", hi, end)) && st.choose(cmpLit("<=", hi, end)) {
			n := Sub(hi, a)
			if !n.IsZero() {
				out = append(out, seg{n: n, arr: s.arr, off: Add(s.off, Sub(a, start)), val: s.val})
			}
			return out
		}
		n := Sub(end, a)
		if !n.IsZero() {
			out = append(out, seg{n: n, arr: s.arr, off: Add(s.off, Sub(a, start)), val: s.val})
		}
		start = end
	}
	return out
}

// determined: the position of lo and hi among the segment borders is known.
func (st *State) determined(segs []seg, lo, hi Num) bool {
	end := Num{}
	for _, s := range segs[:len(segs)-1] {
		end = Add(end, s.n)
		for _, x := range []Num{lo, hi} {
			if !st.f.prove(cmpLit("<=", x, end)) && !st.f.prove(cmpLit(">=", x, end)) {
				return false
			}
		}
	}
	return true
}

func segsLen(segs []seg) Num {
	n := Num{}
	for _, s := range segs {
		n = Add(n, s.n)
	}
	return n
}

// splice replaces [at, at+n) of segs by mid.
func (st *State) splice(segs []seg, at, n Num, mid []seg) []seg {
	total := segsLen(segs)
	var out []seg
	if !at.IsZero() {
		out = append(out, st.take(segs, Num{}, at)...)
	}
	out = append(out, mid...)
	rest := Add(at, n)
	if !NumEq(rest, total) {
		out = append(out, st.take(segs, rest, total)...)
	}
	return mergeSegs(out)
}

// mergeSegs joins adjacent segments of the same source.
func mergeSegs(in []seg) []seg {
	var out []seg
	for _, s := range in {
		if s.n.IsZero() {
			continue
		}
		if len(out) > 0 {
			p := &out[len(out)-1]
			if p.arr != nil && s.arr == p.arr && NumEq(Add(p.off, p.n), s.off) {
				p.n = Add(p.n, s.n)
				continue
			}
		}
		out = append(out, s)
	}
	return out
}

// ---- keys and printing ----

func vKey(v V) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case Num:
		return v.Key()
	case *Atom:
		return v.key
	case Lit:
		return "L" + v.k
	case Ptr:
		s := fmt.Sprintf("P%d.%s.%s", v.obj, v.path, v.nilL.k)
		if v.idx != nil {
			s += "@" + v.idx.Key()
		}
		return s
	case Slice:
		return fmt.Sprintf("S%d.%s.%s.%s.%s", v.obj, v.off.Key(), v.len.Key(), v.cap.Key(), v.nilL.k)
	case *Struct:
		var sb strings.Builder
		sb.WriteString("{")
		for _, f := range v.f {
			sb.WriteString(vKey(f))
			sb.WriteByte(';')
		}
		sb.WriteString("}")
		return sb.String()
	case MapV:
		return fmt.Sprintf("M%d.%s", v.obj, v.nilL.k)
	case Iface:
		s := "I" + v.nilL.k
		if v.dyn != nil {
			s += v.dyn.String() + vKey(v.val)
		} else if v.atom != nil {
			s += v.atom.key
		}
		return s
	case FuncV:
		s := "F"
		if v.fn != nil {
			s += v.fn.String()
		}
		for _, b := range v.bind {
			s += vKey(b)
		}
		if v.atom != nil {
			s += v.atom.key
		}
		return s
	case Tuple:
		s := "T"
		for _, x := range v {
			s += vKey(x) + ","
		}
		return s
	}
	return fmt.Sprintf("?%T", v)
}

func objKey(o *Obj) string {
	switch o.kind {
	case OCell:
		return vKey(o.val)
	case OArr:
		var ps []string
		for p := range o.cols {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		var sb strings.Builder
		for _, p := range ps {
			sb.WriteString(p + ":" + segsKey(o.cols[p]) + "|")
		}
		return sb.String()
	}
	var sb strings.Builder
	for _, e := range o.entries {
		sb.WriteString(vKey(e.k) + "=" + vKey(e.v) + ";")
	}
	return sb.String()
}

func segsKey(ss []seg) string {
	var sb strings.Builder
	for _, s := range ss {
		sb.WriteString(s.n.Key())
		if s.arr != nil {
			sb.WriteString("a" + strconv.Itoa(s.arr.id) + "+" + s.off.Key())
		} else {
			sb.WriteString("v" + vKey(s.val))
		}
		sb.WriteByte(';')
	}
	return sb.String()
}

func vStr(v V) string {
	switch v := v.(type) {
	case Num:
		return v.String()
	case *Atom:
		return v.String()
	case Lit:
		return v.String()
	case Ptr:
		return fmt.Sprintf("&obj%d.%s(nil:%v)", v.obj, v.path, v.nilL)
	case Slice:
		return fmt.Sprintf("obj%d[%v:+%v](nil:%v)", v.obj, v.off, v.len, v.nilL)
	case *Struct:
		var s []string
		for i, f := range v.f {
			s = append(s, leafName(v.typ, strconv.Itoa(i))+":"+vStr(f))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case Iface:
		if v.dyn != nil {
			return fmt.Sprintf("iface(%v, %s)", v.dyn, vStr(v.val))
		}
		return fmt.Sprintf("iface(nil:%v)", v.nilL)
	case Tuple:
		var s []string
		for _, x := range v {
			s = append(s, vStr(x))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case nil:
		return "<nil>"
	}
	return fmt.Sprintf("%T", v)
}

func (o *Obj) String() string {
	switch o.kind {
	case OCell:
		return fmt.Sprintf("obj%d cell %s = %s", o.id, o.name, vStr(o.val))
	case OArr:
		s := fmt.Sprintf("obj%d array %s", o.id, o.name)
		for _, l := range leaves(o.typ) {
			s += fmt.Sprintf("\n      .%s:", leafName(o.typ, l.path))
			for _, g := range o.cols[l.path] {
				if g.arr != nil {
					s += fmt.Sprintf(" [%v x %s from %v]", g.n, g.arr.name, g.off)
				} else {
					s += fmt.Sprintf(" [%v x %s]", g.n, vStr(g.val))
				}
			}
		}
		return s
	}
	return fmt.Sprintf("obj%d map %s %d updates", o.id, o.name, len(o.entries))
}

func (st *State) dump() string {
	var sb strings.Builder
	for i, r := range st.ret {
		fmt.Fprintf(&sb, "  ret%d = %s\n", i, vStr(r))
	}
	var ids []int
	for id := range st.mem {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		fmt.Fprintf(&sb, "  %v\n", st.mem[id])
	}
	for k, v := range st.ghost {
		fmt.Fprintf(&sb, "  ghost %s = %s\n", k, vStr(v))
	}
	for _, l := range st.f.lits {
		fmt.Fprintf(&sb, "  | %v\n", l)
	}
	var es []string
	for a, t := range st.f.eqs {
		es = append(es, fmt.Sprintf("  = %v := %v\n", a, t))
	}
	sort.Strings(es)
	sb.WriteString(strings.Join(es, ""))
	for _, q := range st.f.qs {
		fmt.Fprintf(&sb, "  A %v\n", q)
	}
	return sb.String()
}
