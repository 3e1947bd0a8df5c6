package main

// Calls: inlining of repository functions, builtins, library models.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 14

func (e *Eng) call(fn *ssa.Function, c *ssa.Call, st *State) []*State {
	outs := e.callCommon(fn, c, &c.Call, nil, nil, st)
	var res []*State
	for _, o := range outs {
		switch len(o.ret) {
		case 0:
		case 1:
			o.env[c] = o.ret[0]
		default:
			o.env[c] = Tuple(o.ret)
		}
		o.ret = nil
		res = append(res, o)
	}
	return res
}

func (e *Eng) runDefers(fn *ssa.Function, ins *ssa.RunDefers, st *State) []*State {
	cur := []*State{st}
	ds := st.defers
	st.defers = nil
	for i := len(ds) - 1; i >= 0; i-- {
		var next []*State
		for _, s := range cur {
			outs := e.callCommon(fn, nil, ds[i].call, ds[i].args, ds[i].recv, s)
			for _, o := range outs {
				o.ret = nil
				next = append(next, o)
			}
		}
		cur = next
	}
	return cur
}

// callCommon performs a call; the results are left in ret of each state.
func (e *Eng) callCommon(fn *ssa.Function, ins ssa.CallInstruction, c *ssa.CallCommon, args []V, recv V, st *State) []*State {
	if args == nil {
		for _, a := range c.Args {
			args = append(args, st.val(a))
		}
	}
	pos := c.Pos()
	if c.IsInvoke() {
		if recv == nil {
			recv = st.val(c.Value)
		}
		ifc, _ := recv.(Iface)
		if ifc.dyn != nil {
			// resolve to the concrete method
			if m := e.prog.method(ifc.dyn, c.Method); m != nil {
				return e.callFn(fn, ins, m, append([]V{ifc.val}, args...), nil, st, pos)
			}
		}
		return e.fork(st, func(s *State) {
			e.nonNil(s, fn, pos, "method call on "+c.Value.Name(), ifc.nilL)
			e.unknownCall(s, ins, "(interface)."+c.Method.Name(), c.Signature(), append([]V{recv}, args...))
		})
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fn, ins, b, c, args, st)
	}
	if callee := c.StaticCallee(); callee != nil {
		var bind []V
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			if f, ok := st.val(mc).(FuncV); ok {
				bind = f.bind
			}
		}
		return e.callFn(fn, ins, callee, args, bind, st, pos)
	}
	if recv == nil {
		recv = st.val(c.Value)
	}
	if f, ok := recv.(FuncV); ok && f.fn != nil {
		return e.callFn(fn, ins, f.fn, args, f.bind, st, pos)
	}
	return e.fork(st, func(s *State) {
		e.unknownCall(s, ins, "function value", c.Signature(), args)
	})
}

func inRepo(f *ssa.Function) bool {
	for p := f; p != nil; p = p.Parent() {
		if p.Pkg != nil {
			return strings.HasPrefix(p.Pkg.Pkg.Path(), "github.com/vanclief/finmod") || strings.HasPrefix(p.Pkg.Pkg.Path(), "fincheck/")
		}
	}
	// wrappers and instances
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), "github.com/vanclief/finmod")
	}
	return false
}

// callFn inlines a repository function or applies a model.
func (e *Eng) callFn(fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args, bind []V, st *State, pos token.Pos) []*State {
	if inRepo(callee) && callee.Blocks != nil {
		if len(e.stack) >= maxDepth {
			panic(undecided{"call depth exceeded at " + fnName(callee)})
		}
		for _, f := range e.stack {
			if f == callee {
				panic(undecided{"recursive call of " + fnName(callee)})
			}
		}
		if e.onCall != nil {
			e.onCall(st, ins, fnName(callee), args)
		}
		return e.inline(callee, args, bind, st)
	}
	name := callee.String()
	e.calls[name]++
	return e.fork(st, func(s *State) {
		if e.onCall != nil {
			e.onCall(s, ins, name, args)
		}
		if m, ok := models[name]; ok {
			s.ret = m(e, s, fn, ins, callee, args)
		} else {
			e.unknownCall(s, ins, name, callee.Signature, args)
		}
		if e.onResult != nil {
			e.onResult(s, fn, pos, name, args)
		}
	})
}

func (e *Eng) inline(callee *ssa.Function, args, bind []V, st *State) []*State {
	e.funcs[callee] = true
	e.stack = append(e.stack, callee)
	e.marks = append(e.marks, objCnt)
	defer func() {
		e.stack = e.stack[:len(e.stack)-1]
		e.marks = e.marks[:len(e.marks)-1]
	}()
	saved := st.env
	savedDef := st.defers
	in := st.clone()
	in.env = map[ssa.Value]V{}
	in.defers = nil
	for i, p := range callee.Params {
		in.env[p] = args[i]
	}
	for i, p := range callee.FreeVars {
		in.env[p] = bind[i]
	}
	out := e.region(callee, callee.Blocks[0], []*State{in}, nil)
	var res []*State
	for _, r := range out.rets {
		env := make(map[ssa.Value]V, len(saved)+1)
		for k, v := range saved {
			env[k] = v
		}
		r.env = env
		r.defers = savedDef
		res = append(res, r)
	}
	return res
}

// unknownCall: results unknown, memory reachable from pointer arguments forgotten.
func (e *Eng) unknownCall(st *State, ins ssa.CallInstruction, name string, sig *types.Signature, args []V) {
	e.calls["unmodelled "+name]++
	for _, a := range args {
		st.havocV(a, map[int]bool{})
	}
	st.ret = nil
	for i := 0; i < sig.Results().Len(); i++ {
		st.ret = append(st.ret, st.freshV(sig.Results().At(i).Type(), shortName(name)))
	}
}

func shortName(n string) string {
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		return n[i+1:]
	}
	return n
}

func (st *State) havocV(v V, seen map[int]bool) {
	switch v := v.(type) {
	case Ptr:
		st.havocObj(v.obj, seen)
	case Slice:
		st.havocObj(v.obj, seen)
	case MapV:
		st.havocObj(v.obj, seen)
	case *Struct:
		for _, f := range v.f {
			st.havocV(f, seen)
		}
	case Iface:
		st.havocV(v.val, seen)
	case FuncV:
		for _, b := range v.bind {
			st.havocV(b, seen)
		}
	case Tuple:
		for _, b := range v {
			st.havocV(b, seen)
		}
	}
}

func (st *State) havocObj(id int, seen map[int]bool) {
	o, ok := st.mem[id]
	if !ok || seen[id] {
		return
	}
	seen[id] = true
	st.eng.changed(st, token.NoPos, id)
	c := o.clone()
	switch o.kind {
	case OCell:
		st.havocV(o.val, seen)
		c.val = st.freshV(o.typ, "havoc")
	case OArr:
		for _, l := range leaves(o.typ) {
			for _, s := range o.cols[l.path] {
				if s.arr == nil {
					st.havocV(s.val, seen)
				}
			}
			c.cols[l.path] = []seg{{n: o.cap, arr: newArr("havoc", sortOf(l.typ), l.typ)}}
		}
	case OMap:
		c.havoc = true
		c.entries = nil
	}
	st.mem[id] = c
}

// ---- builtins ----

func (e *Eng) builtin(fn *ssa.Function, ins ssa.CallInstruction, b *ssa.Builtin, c *ssa.CallCommon, args []V, st *State) []*State {
	return e.fork(st, func(s *State) {
		switch b.Name() {
		case "len":
			switch x := args[0].(type) {
			case Slice:
				s.ret = []V{x.len}
			case *Atom:
				s.ret = []V{lenOf(x)}
			case MapV:
				n := freshSym("len(map)", SInt)
				s.assume(cmpLit(">=", atomNum(n), IntN(0)))
				s.ret = []V{atomNum(n)}
			case Ptr:
				s.ret = []V{s.obj(x.obj).cap}
			default:
				panic(undecided{"len of an untracked value"})
			}
		case "cap":
			x, ok := args[0].(Slice)
			if !ok {
				panic(undecided{"cap of an untracked value"})
			}
			s.ret = []V{x.cap}
		case "append":
			s.ret = []V{e.appendB(fn, ins, s, args[0].(Slice), args[1])}
		case "copy":
			s.ret = []V{e.copyB(s, ins.Pos(), args[0].(Slice), args[1])}
		case "delete":
			m := args[0].(MapV)
			if m.obj != 0 {
				o := s.obj(m.obj).clone()
				o.havoc = true
				o.entries = nil
				s.mem[o.id] = o
			}
			s.ret = nil
		case "print", "println":
			s.ret = nil
		case "ssa:wrapnilchk":
			s.ret = []V{args[0]}
		case "min", "max":
			n := args[0].(Num)
			for _, a := range args[1:] {
				m := a.(Num)
				if (b.Name() == "min") == s.choose(cmpLit("<=", m, n)) {
					n = m
				}
			}
			s.ret = []V{n}
		default:
			panic(undecided{"builtin " + b.Name()})
		}
	})
}

// sliceSegs returns the column contents of a slice.
func (st *State) sliceSegs(s Slice, path string) []seg {
	if s.nilL.op == LTrue || s.len.IsZero() {
		return nil
	}
	o := st.obj(s.obj)
	return st.take(o.cols[path], s.off, Add(s.off, s.len))
}

func (e *Eng) appendB(fn *ssa.Function, ins ssa.CallInstruction, st *State, dst Slice, src V) V {
	var add map[string][]seg
	var n Num
	switch x := src.(type) {
	case Slice:
		n = x.len
		add = map[string][]seg{}
		for _, l := range leaves(dst.elem) {
			add[l.path] = st.sliceSegs(x, l.path)
		}
	case *Atom: // append([]byte, string...)
		n = lenOf(x)
		add = map[string][]seg{"": {{n: n, arr: newArr("bytes", SInt, dst.elem)}}}
	default:
		panic(undecided{"append of an untracked value"})
	}
	if n.IsZero() {
		return dst
	}
	if e.onAppend != nil {
		if k, ok := n.ConstInt(); ok && k <= 8 {
			var els []V
			x := src.(Slice)
			o := st.obj(x.obj)
			for i := int64(0); i < k; i++ {
				els = append(els, st.readElem(o, Add(x.off, IntN(i)), "", dst.elem))
			}
			e.onAppend(st, fn, ins, dst, els)
		} else {
			e.onAppend(st, fn, ins, dst, nil)
		}
	}
	total := Add(dst.len, n)
	cp := freshSym("cap", SInt)
	st.assume(cmpLit(">=", atomNum(cp), total))
	o := &Obj{kind: OArr, typ: dst.elem, name: "append", cap: atomNum(cp), cols: map[string][]seg{}}
	for _, l := range leaves(dst.elem) {
		segs := append([]seg(nil), st.sliceSegs(dst, l.path)...)
		segs = append(segs, add[l.path]...)
		// spare capacity has unknown content
		segs = append(segs, seg{n: Sub(atomNum(cp), total), arr: newArr("spare", sortOf(l.typ), l.typ)})
		o.cols[l.path] = mergeSegs(segs)
	}
	st.newObj(o)
	if dst.nilL.op != LTrue {
		// storage may be shared: whatever lies behind dst's length may have
		// been overwritten
		shared := true
		if c, ok := dst.cap.ConstInt(); ok && c == 0 {
			shared = false
		}
		if po := st.mem[dst.obj]; po != nil && shared {
			o.parents = append([]int{dst.obj}, po.parents...)
			at := Add(dst.off, dst.len)
			if !st.f.prove(cmpLit("<=", po.cap, at)) {
				pc := po.clone()
				for _, l := range leaves(po.typ) {
					keep := st.take(po.cols[l.path], Num{}, at)
					if at.IsZero() {
						keep = nil
					}
					pc.cols[l.path] = append(append([]seg(nil), keep...), seg{n: Sub(po.cap, at), arr: newArr("overwritten "+po.name, sortOf(l.typ), l.typ)})
				}
				st.mem[po.id] = pc
				st.poison(po, nil)
			}
		}
	}
	nl := litFalse
	if !st.f.prove(cmpLit(">", n, IntN(0))) {
		// nil only when both were empty
		if dst.nilL.op == LFalse {
			nl = litFalse
		} else if !st.choose(cmpLit(">", n, IntN(0))) {
			return dst
		}
	}
	return Slice{obj: o.id, len: total, cap: atomNum(cp), nilL: nl, elem: dst.elem}
}

func (e *Eng) copyB(st *State, pos token.Pos, dst Slice, src V) V {
	e.changed(st, pos, dst.obj)
	s, ok := src.(Slice)
	if !ok {
		st.havocV(dst, map[int]bool{})
		n := freshSym("copied", SInt)
		return atomNum(n)
	}
	n := s.len
	if !st.choose(cmpLit("<=", s.len, dst.len)) {
		n = dst.len
	}
	if n.IsZero() || dst.nilL.op == LTrue || s.nilL.op == LTrue {
		return Num{}
	}
	so := st.obj(s.obj)
	do := st.obj(dst.obj)
	c := do.clone()
	for _, l := range leaves(do.typ) {
		mid := st.take(so.cols[l.path], s.off, Add(s.off, n))
		c.cols[l.path] = st.splice(do.cols[l.path], dst.off, n, mid)
	}
	st.mem[do.id] = c
	st.poison(do, nil)
	return n
}

// ---- library models ----

type model func(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V

var models map[string]model

func freshErr(st *State, name string) Iface {
	a := freshSym(name+" error", SOpq)
	return Iface{nilL: boolAtomLit(fnAtom("isNil", SBool, a), true), atom: a}
}

func pureFn(name string) model {
	return func(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
		ts, ok := vTerms(st, args)
		t := callee.Signature.Results().At(0).Type()
		if !ok {
			return []V{st.freshV(t, name)}
		}
		a := fnAtom(name, sortOf(t), ts...)
		if a.typ == nil {
			a.typ = t
		}
		return []V{leafFromAtom(a)}
	}
}

// pureErr: (value, error) results determined by the arguments.
func pureErr(name string) model {
	return func(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
		ts, ok := vTerms(st, args)
		t := callee.Signature.Results().At(0).Type()
		if !ok {
			return []V{st.freshV(t, name), freshErr(st, name)}
		}
		var v V
		if sortOf(t) == SOpq {
			if _, isP := under(t).(*types.Pointer); isP {
				v = st.entryV(t, name+fmt.Sprint(ts), true)
			}
		}
		if v == nil {
			a := fnAtom(name, sortOf(t), ts...)
			a.typ = t
			v = leafFromAtom(a)
		}
		er := fnAtom(name+".err", SOpq, ts...)
		return []V{v, Iface{nilL: boolAtomLit(fnAtom("isNil", SBool, er), true), atom: er}}
	}
}

func vTerms(st *State, args []V) ([]Term, bool) {
	var ts []Term
	for _, a := range args {
		switch a := a.(type) {
		case Num:
			ts = append(ts, st.f.norm(a))
		case *Atom:
			ts = append(ts, a)
		case Lit:
			ts = append(ts, litTerm{a})
		case Slice:
			k, ok := a.len.ConstInt()
			if !ok || k > 40 {
				return nil, false
			}
			if k == 0 {
				continue
			}
			o := st.obj(a.obj)
			for i := int64(0); i < k; i++ {
				t, ok := vTerms(st, []V{st.readElem(o, Add(a.off, IntN(i)), "", a.elem)})
				if !ok {
					return nil, false
				}
				ts = append(ts, t...)
			}
		case *Struct:
			t, ok := vTerms(st, a.f)
			if !ok {
				return nil, false
			}
			ts = append(ts, t...)
		case Iface:
			if a.nilL.op == LTrue {
				ts = append(ts, strConst("<nil>"))
			} else if a.dyn != nil {
				t, ok := vTerms(st, []V{a.val})
				if !ok {
					return nil, false
				}
				ts = append(ts, t...)
			} else {
				ts = append(ts, a.atom)
			}
		case Ptr:
			ts = append(ts, namedSym(vKey(a), SOpq))
		default:
			return nil, false
		}
	}
	return ts, true
}

func ezErr(st *State, callee *ssa.Function, code V, msg V) []V {
	pt := callee.Signature.Results().At(0).Type()
	t := pt.(*types.Pointer).Elem()
	v := st.freshV(t, "ez").(*Struct)
	var nv V = v
	if code != nil {
		nv = setPath(nv, splitPath(fieldPath(t, "Code")), code)
	}
	o := st.newObj(&Obj{kind: OCell, typ: t, name: "error", val: nv})
	return []V{Ptr{obj: o.id, nilL: litFalse, typ: t}}
}

func minmax(op string) model {
	return func(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
		a, b := args[0].(Num), args[1].(Num)
		if op == "min" {
			if st.choose(cmpLit("<=", a, b)) {
				return []V{a}
			}
			return []V{b}
		}
		if st.choose(cmpLit(">=", a, b)) {
			return []V{a}
		}
		return []V{b}
	}
}

func noResult(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	return nil
}

func init() {
	models = map[string]model{
		"github.com/vanclief/ez.New": func(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
			return ezErr(st, callee, args[1], args[2])
		},
		"github.com/vanclief/ez.Wrap": func(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
			// the code is inherited from the wrapped error where it is known
			if i, ok := args[1].(Iface); ok && i.dyn != nil {
				if p, ok := i.val.(Ptr); ok && p.obj != 0 {
					if s, ok := st.obj(p.obj).val.(*Struct); ok {
						return ezErr(st, callee, getPath(s, fieldPath(s.typ, "Code")), nil)
					}
				}
			}
			return ezErr(st, callee, nil, nil)
		},
		"github.com/rs/xid.New": func(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
			return []V{freshSym("xid", SOpq)}
		},
		"(github.com/rs/xid.ID).String": pureFn("xidString"),
		"math.Min":                      minmax("min"),
		"math.Max":                      minmax("max"),
		"math.Abs": func(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
			x := args[0].(Num)
			if st.choose(cmpLit(">=", x, IntN(0))) {
				return []V{x}
			}
			return []V{Neg(x)}
		},
		"math.Floor": func(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
			if x := args[0].(Num); x.isInt() {
				return []V{x}
			}
			return []V{atomNum(fnAtom("floor", SInt, args[0].(Num)))}
		},
		"math.Round": pureFn("round"), "math.Ceil": pureFn("ceil"), "math.Trunc": pureFn("trunc"), "math.Sqrt": pureFn("sqrt"), "math.Pow": pureFn("pow"), "math.Log": pureFn("log"), "math.Exp": pureFn("exp"),
		"math.IsNaN": func(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
			return []V{litFalse}
		},
		"math.IsInf": func(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
			// positive or negative infinity enters only through Inf
			return []V{litFalse}
		},
		"math.Inf": func(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
			// a bound beyond every finite value
			big309 := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(309), nil))
			if c, ok := args[0].(Num).ConstInt(); ok && c < 0 {
				return []V{RatN(new(big.Rat).Neg(big309))}
			}
			return []V{RatN(big309)}
		},
		"time.Unix": pureFn("unix"),
		"time.Now": func(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
			return []V{freshSym("now", SOpq)}
		},
		"(time.Time).UTC":             pureFn("utc"),
		"(time.Time).Local":           pureFn("local"),
		"(time.Time).In":              pureFn("in"),
		"(time.Time).Unix":            pureFn("unixOf"),
		"(time.Time).UnixNano":        pureFn("unixNano"),
		"(time.Time).Minute":          minuteModel,
		"(time.Time).Hour":            pureFn("hour"),
		"(time.Time).Add":             pureFn("timeAdd"),
		"(time.Time).Sub":             pureFn("timeSub"),
		"(time.Time).Truncate":        pureFn("timeTrunc"),
		"(time.Time).String":          pureFn("timeString"),
		"(time.Time).Format":          pureFn("timeFormat"),
		"(time.Time).IsZero":          pureFn("timeIsZero"),
		"time.LoadLocation":           pureErr("location"),
		"time.Parse":                  pureErr("timeParse"),
		"strconv.ParseFloat":          parseFloatModel,
		"strconv.ParseInt":            pureErr("parseInt"),
		"strconv.Atoi":                pureErr("atoi"),
		"strconv.Itoa":                pureFn("itoa"),
		"strconv.FormatInt":           formatIntModel,
		"strconv.FormatFloat":         formatFloatModel,
		"strings.Split":               splitModel,
		"strings.Fields":              fieldsModel,
		"strings.TrimSpace":           pureFn("trimSpace"),
		"strings.Trim":                pureFn("trim"),
		"strings.ToUpper":             pureFn("toUpper"),
		"strings.ToLower":             pureFn("toLower"),
		"strings.TrimPrefix":          pureFn("trimPrefix"),
		"strings.TrimSuffix":          pureFn("trimSuffix"),
		"strings.HasPrefix":           pureFn("hasPrefix"),
		"strings.HasSuffix":           pureFn("hasSuffix"),
		"strings.Contains":            pureFn("contains"),
		"strings.Join":                joinModel,
		"strings.Repeat":              pureFn("repeat"),
		"strings.Title":               pureFn("title"),
		"fmt.Sprintf":                 sprintfModel,
		"fmt.Sprint":                  sprintModel,
		"fmt.Sprintln":                sprintModel,
		"fmt.Errorf":                  errorfModel,
		"errors.New":                  errorfModel,
		"fmt.Println":                 printModel,
		"fmt.Print":                   printModel,
		"fmt.Printf":                  printModel,
		"fmt.Fprintln":                fprintModel,
		"fmt.Fprintf":                 fprintModel,
		"fmt.Fprint":                  fprintModel,
		"os.Create":                   fileModel,
		"os.Open":                     fileModel,
		"os.OpenFile":                 fileModel,
		"(*os.File).WriteString":      printModel,
		"(*os.File).Write":            printModel,
		"(*bufio.Writer).WriteString": printModel,
		"(*bufio.Writer).Write":       printModel,
		"io.WriteString":              fprintModel,
		"(*os.File).Close":            errOnly,
		"(*os.File).Sync":             errOnly,
		"bufio.NewScanner":            opaquePtr,
		"bufio.NewWriter":             opaquePtr,
		"bufio.NewWriterSize":         opaquePtr,
		"(*bufio.Scanner).Scan":       freshResults,
		"(*bufio.Scanner).Text":       freshResults,
		"(*bufio.Scanner).Buffer":     noResult,
		"(*bufio.Scanner).Err":        errOnly,
		"(*bufio.Writer).Flush":       errOnly,
		"sort.Slice":                  sortModel,
		"sort.SliceStable":            sortModel,
		"sort.Sort":                   sortTypeModel,
		"sort.Stable":                 sortTypeModel,
		"sort.Reverse":                sortReverseModel,
		"sort.Search":                 searchModel,
		"sort.Float64s":               sortFloatsModel,
		"sort.SliceIsSorted":          freshResults,
	}
	for _, b := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		models[b+"String"] = builderModel
		models[b+"Len"] = builderModel
		models[b+"Reset"] = builderModel
		models[b+"Grow"] = noResult
		for _, w := range []string{"WriteString", "WriteByte", "WriteRune"} {
			models[b+w] = builderModel
		}
	}
}

func minuteModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	a := fnAtom("minute", SInt, args[0].(*Atom))
	st.assume(cmpLit(">=", atomNum(a), IntN(0)))
	st.assume(cmpLit("<=", atomNum(a), IntN(59)))
	return []V{atomNum(a)}
}

func freshResults(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	var r []V
	for i := 0; i < callee.Signature.Results().Len(); i++ {
		r = append(r, st.freshV(callee.Signature.Results().At(i).Type(), callee.Name()))
	}
	return r
}

func errOnly(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	return []V{freshErr(st, callee.Name())}
}

func opaquePtr(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	return []V{st.entryV(callee.Signature.Results().At(0).Type(), fmt.Sprintf("%s'%d", callee.Name(), symBump()), true)}
}

func symBump() int { symCnt++; return symCnt }

func fileModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	t := callee.Signature.Results().At(0).Type()
	p := st.entryV(t, fmt.Sprintf("file'%d", symBump()), false).(Ptr)
	er := freshErr(st, callee.Name())
	if st.choose(er.nilL) {
		p.nilL = litFalse
	} else {
		p = Ptr{nilL: litTrue, typ: p.typ}
	}
	return []V{p, er}
}

func printModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	n := freshSym("n", SInt)
	return []V{atomNum(n), freshErr(st, callee.Name())}
}

func errorfModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	return []V{Iface{nilL: litFalse, atom: freshSym("error", SOpq)}}
}

// ParseFloat of a decimal rendering with fixed digits is rounding; parsing
// back what Sprintf("%.Nf") or FormatFloat produced never fails.
func parseFloatModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	if s, ok := args[0].(*Atom); ok {
		if s.kind == KFn && strings.HasPrefix(s.name, "fixed:") {
			d := strings.TrimPrefix(s.name, "fixed:")
			return []V{atomNum(fnAtom("roundDec:"+d, SReal, s.args[0])), Iface{nilL: litTrue}}
		}
	}
	return pureErr("parseFloat")(e, st, fn, ins, callee, args)
}

func formatIntModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	if b, ok := args[1].(Num).ConstInt(); ok && b == 10 {
		args = args[:1]
		return pureFn("itoa")(e, st, fn, ins, callee, args)
	}
	return pureFn("formatInt")(e, st, fn, ins, callee, args)
}

func formatFloatModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	f, ok1 := args[1].(Num).ConstInt()
	p, ok2 := args[2].(Num).ConstInt()
	b, ok3 := args[3].(Num).ConstInt()
	if ok1 && ok2 && ok3 && f == 'f' && p >= 0 && b == 64 {
		return []V{fnAtom(fmt.Sprintf("fixed:%d", p), SStr, st.f.norm(args[0].(Num)))}
	}
	return pureFn("formatFloat")(e, st, fn, ins, callee, args)
}

// operands reads the variadic operands of a print call.
func operands(st *State, v V) ([]V, bool) {
	va, ok := v.(Slice)
	if !ok {
		return nil, false
	}
	k, ok := va.len.ConstInt()
	if !ok {
		return nil, false
	}
	var els []V
	for i := int64(0); i < k; i++ {
		els = append(els, st.readElem(st.obj(va.obj), Add(va.off, IntN(i)), "", va.elem))
	}
	return els, true
}

// sprintfModel renders constant formats into a concatenation.
func sprintfModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	return []V{e.formatted(st, args[0], args[1])}
}

func (e *Eng) formatted(st *State, f0, operand V) *Atom {
	format, ok := f0.(*Atom)
	els, ok2 := operands(st, operand)
	if !ok || !ok2 || format.kind != KConst {
		return freshSym("sprintf", SStr)
	}
	var parts []*Atom
	f := format.name
	ai := 0
	for len(f) > 0 {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			parts = append(parts, strConst(f))
			break
		}
		if i > 0 {
			parts = append(parts, strConst(f[:i]))
		}
		f = f[i+1:]
		j := 0
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			parts = append(parts, freshSym("badformat", SStr))
			break
		}
		verb := f[:j+1]
		f = f[j+1:]
		if verb == "%" {
			parts = append(parts, strConst("%"))
			continue
		}
		if ai >= len(els) {
			parts = append(parts, freshSym("missingarg", SStr))
			continue
		}
		parts = append(parts, e.renderVerb(st, verb, els[ai]))
		ai++
	}
	if ai < len(els) {
		parts = append(parts, freshSym("extraarg", SStr))
	}
	return concatS(parts...)
}

// sprintModel: the operands one after the other, with spaces between all of
// them (Sprintln) or between those that are not texts (Sprint).
func sprintModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	return []V{e.printed(st, args[0], callee.Name() == "Sprintln")}
}

func (e *Eng) printed(st *State, operand V, line bool) *Atom {
	els, ok := operands(st, operand)
	if !ok {
		return freshSym("sprint", SStr)
	}
	var parts []*Atom
	text := func(v V) bool {
		i, ok := v.(Iface)
		return ok && i.dyn != nil && sortOf(i.dyn) == SStr
	}
	for i, x := range els {
		if i > 0 && (line || !text(x) && !text(els[i-1])) {
			parts = append(parts, strConst(" "))
		}
		parts = append(parts, e.renderVerb(st, "v", x))
	}
	if line {
		parts = append(parts, strConst("\n"))
	}
	return concatS(parts...)
}

func joinModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	els, ok := operands(st, args[0])
	sep, ok2 := args[1].(*Atom)
	if s, is := args[0].(Slice); !ok && is {
		a := freshSym("joined", SStr)
		if e.joins == nil {
			e.joins = map[*Atom]Slice{}
		}
		e.joins[a] = s
		return []V{a}
	}
	if !ok || !ok2 {
		return pureFn("join")(e, st, fn, ins, callee, args)
	}
	var parts []*Atom
	for i, x := range els {
		a, ok := x.(*Atom)
		if !ok {
			return pureFn("join")(e, st, fn, ins, callee, args)
		}
		if i > 0 {
			parts = append(parts, sep)
		}
		parts = append(parts, a)
	}
	return []V{concatS(parts...)}
}

// A text buffer holds the text written to it so far.
func builderText(st *State, p Ptr) (text *Atom) {
	switch x := st.load(p).(type) {
	case *Atom:
		if x.sort == SStr {
			return x
		}
		if strings.HasPrefix(x.name, "zero:") {
			return strConst("")
		}
	}
	return freshSym("buffered", SStr)
}

func builderAdd(st *State, p Ptr, text *Atom) {
	st.store(p, concatS(builderText(st, p), text))
}

func builderModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	p, ok := args[0].(Ptr)
	if !ok {
		panic(undecided{"an untracked text buffer"})
	}
	switch callee.Name() {
	case "String":
		return []V{builderText(st, p)}
	case "Len":
		return []V{lenOf(builderText(st, p))}
	case "Reset":
		st.store(p, strConst(""))
		return nil
	case "WriteString":
		if a, ok := args[1].(*Atom); ok {
			builderAdd(st, p, a)
			return []V{lenOf(a), Iface{nilL: litTrue}}
		}
	case "WriteByte", "WriteRune":
		if n, ok := args[1].(Num); ok {
			t := fnAtom("char", SStr, n)
			if c, ok := n.ConstInt(); ok {
				t = strConst(string(rune(c)))
			}
			builderAdd(st, p, t)
			if callee.Name() == "WriteByte" {
				return []V{Iface{nilL: litTrue}}
			}
			return []V{atomNum(freshSym("n", SInt)), Iface{nilL: litTrue}}
		}
	}
	builderAdd(st, p, freshSym("written", SStr))
	return freshResults(e, st, fn, ins, callee, args)
}

// fprintModel: printing to a text buffer extends its text.
func fprintModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	if w, ok := args[0].(Iface); ok && w.dyn != nil {
		if n := w.dyn.String(); n == "*strings.Builder" || n == "*bytes.Buffer" {
			if p, ok := w.val.(Ptr); ok {
				var t *Atom
				switch callee.Name() {
				case "Fprintf":
					t = e.formatted(st, args[1], args[2])
				case "WriteString":
					t, _ = args[1].(*Atom)
				default:
					t = e.printed(st, args[1], callee.Name() == "Fprintln")
				}
				if t == nil {
					t = freshSym("written", SStr)
				}
				builderAdd(st, p, t)
				return []V{lenOf(t), Iface{nilL: litTrue}}
			}
		}
	}
	return printModel(e, st, fn, ins, callee, args)
}

func (e *Eng) renderVerb(st *State, verb string, v V) *Atom {
	if i, ok := v.(Iface); ok {
		if i.dyn != nil {
			if i.dyn.String() == "time.Time" && (verb == "s" || verb == "v") {
				if ts, ok := vTerms(st, []V{i.val}); ok {
					return fnAtom("timeString", SStr, ts...)
				}
			}
			if hasStringer(i.dyn) && (strings.HasSuffix(verb, "s") || strings.HasSuffix(verb, "v")) {
				if t := e.ownText(st, i); t != nil && (verb == "s" || verb == "v") {
					return t
				}
				ts, ok := vTerms(st, []V{i.val})
				if !ok {
					return freshSym("rendered", SStr)
				}
				return fnAtom("verb:"+verb+":"+i.dyn.String(), SStr, ts...)
			}
			v = i.val
			if b, ok := under(i.dyn).(*types.Basic); ok {
				if b.Info()&types.IsInteger != 0 && (verb == "d" || verb == "v") {
					return fnAtom("itoa", SStr, st.f.norm(v.(Num)))
				}
				if b.Info()&types.IsFloat != 0 && verb == "f" {
					verb = ".6f"
				}
			}
		}
	}
	switch x := v.(type) {
	case *Atom:
		if x.sort == SStr && (verb == "s" || verb == "v") {
			return x
		}
		return fnAtom("verb:"+verb, SStr, x)
	case Num:
		x = st.f.norm(x)
		if strings.HasPrefix(verb, ".") && strings.HasSuffix(verb, "f") {
			return fnAtom("fixed:"+verb[1:len(verb)-1], SStr, x)
		}
		return fnAtom("verb:"+verb, SStr, x)
	}
	ts, ok := vTerms(st, []V{v})
	if !ok {
		a := freshSym("rendered", SStr)
		if s, is := v.(Slice); is && (verb == "v" || verb == "+v") {
			if e.lists == nil {
				e.lists = map[*Atom]V{}
			}
			func() {
				defer func() {
					if x := recover(); x != nil {
						if _, is := x.(undecided); !is {
							panic(x)
						}
					}
				}()
				e.lists[a] = contents(st, s)
			}()
		}
		return a
	}
	return fnAtom("verb:"+verb, SStr, ts...)
}

// ownText is the text of a value of the repository with a String method.
func (e *Eng) ownText(st *State, i Iface) (t *Atom) {
	if p, ok := i.val.(Ptr); ok && !st.f.prove(p.nilL.Not()) {
		return nil
	}
	sel := e.prog.prog.MethodSets.MethodSet(i.dyn).Lookup(nil, "String")
	if sel == nil {
		return nil
	}
	m := e.prog.prog.MethodValue(sel)
	if m == nil || !inRepo(m) || m.Blocks == nil {
		return nil
	}
	for _, f := range e.stack {
		if f == m {
			return nil
		}
	}
	e.quiet++
	defer func() {
		e.quiet--
		if r := recover(); r != nil {
			if _, ok := r.(undecided); !ok {
				panic(r)
			}
			t = nil
		}
	}()
	rets := e.inline(m, []V{i.val}, nil, st.clone())
	if len(rets) != 1 {
		return nil
	}
	t, _ = rets[0].ret[0].(*Atom)
	return t
}

func hasStringer(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if n := ms.At(i).Obj().Name(); n == "String" || n == "Error" || n == "Format" {
			return true
		}
	}
	return false
}

// strings.Split: an unknown number (at least one) of parts.
func splitModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	return partsModel(st, "split", args, 1)
}

func fieldsModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	return partsModel(st, "fields", args, 0)
}

func partsModel(st *State, name string, args []V, min int64) []V {
	ts, ok := vTerms(st, args)
	nm := name
	if ok {
		for _, t := range ts {
			nm += " " + t.Key()
		}
	} else {
		nm = fmt.Sprintf("%s'%d", name, symBump())
	}
	s := st.entrySlice(types.Typ[types.String], nm)
	s.nilL = litFalse
	st.assume(cmpLit(">=", s.len, IntN(min)))
	return []V{s}
}

// sortModel: the slice becomes a permutation ordered by the comparator.
func sortModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	i, ok := args[0].(Iface)
	if !ok {
		panic(undecided{"sort of an untracked value"})
	}
	s, ok := i.val.(Slice)
	if !ok {
		panic(undecided{"sort of an untracked slice"})
	}
	if s.nilL.op == LTrue || s.len.IsZero() {
		return nil
	}
	f, ok := args[1].(FuncV)
	if !ok || f.fn == nil {
		panic(undecided{"sort with an untracked comparator"})
	}
	e.sortBy(st, ins.Pos(), s, func(st *State, i, j Num) []*State {
		return e.inline(f.fn, []V{i, j}, f.bind, st)
	})
	return nil
}

// comparer evaluates the comparison of the elements at two indices.
type comparer func(st *State, i, j Num) []*State

// sortTypeModel: sorting a list through its Len, Less and Swap methods.
func sortTypeModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	i, ok := args[0].(Iface)
	rev := false
	for ok {
		t, is := i.val.(Tuple)
		if !is {
			break
		}
		rev = !rev
		i, ok = t[0].(Iface)
	}
	if !ok || i.dyn == nil {
		panic(undecided{"sort of an untracked value"})
	}
	s, ok := i.val.(Slice)
	if !ok {
		panic(undecided{"sort of an untracked slice"})
	}
	method := func(name string) *ssa.Function {
		sel := e.prog.prog.MethodSets.MethodSet(i.dyn).Lookup(nil, name)
		if sel == nil {
			panic(undecided{"sort by a type without " + name})
		}
		return e.prog.prog.MethodValue(sel)
	}
	if s.nilL.op == LTrue || s.len.IsZero() {
		return nil
	}
	e.quiet++
	for _, x := range e.inline(method("Len"), []V{s}, nil, st.clone()) {
		if n, ok := x.ret[0].(Num); !ok || !x.f.prove(cmpLit("==", n, s.len)) {
			panic(undecided{"sort by a type with another length"})
		}
	}
	two := st.clone()
	two.own()
	two.assumeSafe(cmpLit(">=", s.len, IntN(2)))
	if !two.f.dead {
		at := func(x *State, i int64) string {
			return vKey(canon(x, x.readElem(x.obj(s.obj), Add(s.off, IntN(i)), "", s.elem)))
		}
		var a, b string
		for _, x := range e.fork(two, func(x *State) { a, b = at(x, 0), at(x, 1) }) {
			for _, y := range e.inline(method("Swap"), []V{s, IntN(0), IntN(1)}, nil, x) {
				for range e.fork(y, func(y *State) {
					if at(y, 0) != b || at(y, 1) != a {
						panic(undecided{"sort by a type that does not swap"})
					}
				}) {
				}
			}
		}
	}
	e.quiet--
	less := method("Less")
	e.sortBy(st, ins.Pos(), s, func(st *State, i, j Num) []*State {
		if rev {
			i, j = j, i
		}
		return e.inline(less, []V{s, i, j}, nil, st)
	})
	return nil
}

func sortReverseModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	return []V{Iface{nilL: litFalse, dyn: callee.Signature.Results().At(0).Type(), val: Tuple{args[0]}}}
}

func (e *Eng) sortBy(st *State, pos token.Pos, s Slice, less comparer) {
	if k, ok := s.len.ConstInt(); ok && k == 1 {
		return
	}
	e.changed(st, pos, s.obj)
	if k, ok := s.len.ConstInt(); ok && k == 2 {
		// swap when the second comes first
		if e.evalLess(st, less, IntN(1), IntN(0)) {
			o := st.obj(s.obj)
			a := st.readElem(o, s.off, "", s.elem)
			b := st.readElem(o, Add(s.off, IntN(1)), "", s.elem)
			i0, i1 := s.off, Add(s.off, IntN(1))
			st.store(Ptr{obj: s.obj, idx: &i0, typ: s.elem}, b)
			st.store(Ptr{obj: s.obj, idx: &i1, typ: s.elem}, a)
		}
		return
	}
	o := st.obj(s.obj)
	c := o.clone()
	arrs := map[string]*Arr{}
	e.sortCount++
	for _, l := range leaves(s.elem) {
		a := newArr("sorted "+o.name+"."+leafName(s.elem, l.path), sortOf(l.typ), l.typ)
		arrs[l.path] = a
		c.cols[l.path] = st.splice(o.cols[l.path], s.off, s.len, []seg{{n: s.len, arr: a}})
		if e.sorted == nil {
			e.sorted = map[*Arr]sortInfo{}
		}
		e.sorted[a] = sortInfo{src: st.take(o.cols[l.path], s.off, Add(s.off, s.len)), path: l.path, n: s.len, event: e.sortCount}
	}
	st.mem[o.id] = c
	st.poison(o, nil)
	// order fact: for q < r, not less(r, q)
	if body, ok := e.lessLit(st, less); ok {
		nb := body.Not().subst(func(a *Atom) (Term, bool) {
			if a == qv {
				return atomNum(rv), true
			}
			if a == rv {
				return atomNum(qv), true
			}
			return nil, false
		})
		st.assumeQ(mkQF(Num{}, s.len, nil, nb, true))
	}
}

type sortInfo struct {
	src   []seg
	path  string
	n     Num
	event int // the sort call that made it
}

// lessLit evaluates less(q, r) symbolically as one literal.
func (e *Eng) lessLit(st *State, less comparer) (Lit, bool) {
	e.quiet++
	defer func() { e.quiet-- }()
	s := st.clone()
	s.own()
	outs := e.fork(s, func(x *State) {})
	_ = outs
	var rets []*State
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(undecided); !ok {
					panic(r)
				}
			}
		}()
		rets = less(s, atomNum(qv), atomNum(rv))
	}()
	if len(rets) == 1 {
		l, ok := rets[0].ret[0].(Lit)
		return l, ok
	}
	return Lit{}, false
}

func (e *Eng) evalLess(st *State, less comparer, i, j Num) bool {
	e.quiet++
	rets := less(st.clone(), i, j)
	e.quiet--
	if len(rets) != 1 {
		panic(undecided{"comparator with several outcomes"})
	}
	l, ok := rets[0].ret[0].(Lit)
	if !ok {
		panic(undecided{"comparator result untracked"})
	}
	return st.choose(l)
}

func sortFloatsModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	st.havocV(args[0], map[int]bool{})
	return nil
}

// sort.Search(n, f): the result i satisfies f(i) or i == n, and not f(i-1).
func searchModel(e *Eng, st *State, fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []V) []V {
	n := args[0].(Num)
	f := args[1].(FuncV)
	i := atomNum(freshSym("search", SInt))
	st.assume(cmpLit(">=", i, IntN(0)))
	if !st.choose(cmpLit("<", i, n)) {
		st.assume(cmpLit("<=", i, max2("max", n, IntN(0))))
		st.assume(cmpLit("==", i, n))
	} else if l, ok := e.predLit(st, f, i); ok {
		st.assume(l)
	}
	if st.choose(cmpLit(">", i, IntN(0))) {
		if l, ok := e.predLit(st, f, Sub(i, IntN(1))); ok {
			st.assume(l.Not())
		}
	}
	return []V{i}
}

func (e *Eng) predLit(st *State, f FuncV, i Num) (Lit, bool) {
	if f.fn == nil {
		return Lit{}, false
	}
	e.quiet++
	defer func() { e.quiet-- }()
	rets := e.inline(f.fn, []V{i}, f.bind, st.clone())
	if len(rets) == 1 {
		l, ok := rets[0].ret[0].(Lit)
		return l, ok
	}
	return Lit{}, false
}
