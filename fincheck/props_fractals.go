package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Williams fractals.

func init() {
	register("I07", "per iteration of the outermost loop (all back edges, loop states covered by the invariant) with ghost centre c: the candles appended to the result are an up fractal of c exactly when c is a confirmed high and then a down fractal exactly when c is a confirmed low (counts of lower/higher candles as sums of indicators); all centres with two candles on each side are visited in order; the list returned is the list at the end of the loop", checkFractals)
}

// extreme describes one kind of fractal.
type extreme struct {
	typ, fld string
	sign     int64 // 1: higher is more extreme
}

var extremes = []extreme{{"up", "High", 1}, {"down", "Low", -1}}

type fractals struct {
	c    *Ctx
	run  *Run
	cs   Slice
	elem string // type of the elements of the result
}

func (z *fractals) val(x extreme, i Num) Num {
	return Mul(IntN(x.sign), fieldN(z.run.oldElem(z.cs, i), x.fld))
}

// weaker: candle i is strictly less extreme than c.
func (z *fractals) weaker(x extreme, i, c Num) Lit { return cmpLit("<", z.val(x, i), z.val(x, c)) }

// count of candles in c+1..p-1 that are strictly less extreme than c.
func (z *fractals) count(x extreme, c, p Num) Num {
	v := freshSym("i", SInt)
	return SumN(indAtom(z.weaker(x, atomNum(v), c)), v, Add(c, IntN(1)), p)
}

// confirmed: two less extreme candles before c and two after it with nothing
// more extreme in between.
func (z *fractals) confirmed(st *State, x extreme, c Num) bool {
	for d := int64(1); d <= 2; d++ {
		if !st.f.prove(z.weaker(x, Sub(c, IntN(d)), c)) {
			return false
		}
	}
	for _, p := range z.ends(st) {
		if !proveF(st.f, And(Gt(p, c), Le(p, z.cs.len), Ge(z.count(x, c, p), IntN(2)))) {
			continue
		}
		q := atomNum(freshSym("i", SInt))
		y := st.copyFree()
		y.assumeSafe(cmpLit(">", q, c))
		y.assumeSafe(cmpLit("<", q, p))
		if y.f.dead || y.f.prove(cmpLit("<=", z.val(x, q), z.val(x, c))) {
			return true
		}
		// the last candle apart from the others
		last := Sub(p, IntN(1))
		y.assumeSafe(cmpLit("<", q, last))
		if (y.f.dead || y.f.prove(cmpLit("<=", z.val(x, q), z.val(x, c)))) && st.f.prove(cmpLit("<=", z.val(x, last), z.val(x, c))) {
			return true
		}
	}
	return false
}

// unconfirmed: the conditions of confirmed are contradictory.
func (z *fractals) unconfirmed(st *State, x extreme, c Num) bool {
	y := st.copyFree()
	for d := int64(1); d <= 2; d++ {
		y.assumeSafe(z.weaker(x, Sub(c, IntN(d)), c))
	}
	y.f.assumeQ(mkQF(Sub(c, IntN(2)), c, nil, z.weaker(x, atomNum(qv), c), false))
	if y.f.dead || y.f.refute(nil, 2) {
		return true
	}
	p := atomNum(freshSym("p", SInt))
	y.assumeSafe(cmpLit(">", p, c))
	y.assumeSafe(cmpLit("<=", p, z.cs.len))
	y.f.assumeQ(mkQF(Add(c, IntN(1)), p, nil, cmpLit("<=", z.val(x, atomNum(qv)), z.val(x, c)), false))
	n := z.count(x, c, p)
	y.assumeSafe(cmpLit(">=", n, IntN(2)))
	if y.f.dead {
		return true
	}
	for _, e := range z.ends(st) {
		a, b := y.copyFree(), y.copyFree()
		a.assumeSafe(cmpLit("<=", p, e))
		b.assumeSafe(cmpLit(">", p, e))
		if (a.f.dead || a.f.refute([]Term{n, p}, 3) || a.f.refute(nil, 3)) && (b.f.dead || b.f.refute([]Term{p, e}, 3) || b.f.refute(nil, 3)) {
			return true
		}
	}
	return false
}

// ends lists the ends of ranges the state speaks about.
func (z *fractals) ends(st *State) []Num {
	seen := map[string]bool{}
	out := []Num{z.cs.len}
	visit := func(a *Atom) {
		if a.kind == KPrefix {
			if n := a.args[1].(Num); termLvl(n) == 0 && !seen[n.Key()] && !occurs(n, qv) {
				seen[n.Key()] = true
				for d := int64(0); d <= 5; d++ {
					out = append(out, Add(n, IntN(d)))
				}
			}
		}
	}
	for _, l := range st.f.lits {
		l.deep(visit)
	}
	for _, a := range st.f.eqAtoms() {
		deep(st.f.eqs[a], visit)
	}
	sort.SliceStable(out[1:], func(i, j int) bool { return out[i+1].Key() < out[j+1].Key() })
	return out
}

func checkFractals(c *Ctx) {
	name := "indicators.WilliamFractals"
	z := &fractals{c: c}
	if fn := c.prog.fn(name); fn != nil && fn.Signature.Results().Len() == 1 {
		if s, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
			z.elem = s.Elem().String()
		}
	}
	steps := 0
	shapes := map[string]int{}
	prep := func(e *Eng, st *State, args []V) {
		z.cs = args[0].(Slice)
		z.run = &Run{c: c, name: name, e: e, st0: st.clone(), args: args}
		st.ghost["centre"] = IntN(2)
		e.onTick = func(st *State) { st.ghost["centre"] = Add(num(st.ghost["centre"]), IntN(1)) }
		e.onBack = append(e.onBack, func(g *gen, h, b *State) {
			if e.loopDepth != 0 {
				return
			}
			where := fmt.Sprintf("%s (loop at %s)", name, c.prog.pos(loopPos(g.l)))
			c.guard(where, func() { z.step(g, h, b, where, shapes) })
			steps++
		})
		e.onExit = func(st *State, l *loopInfo) {
			delete(st.ghost, "$list")
			if s, ok := z.list(st, l); ok {
				st.ghost["$list"] = contents(st, s)
			}
		}
	}
	r := c.run(name, runOpt{prep: prep})
	if r == nil {
		return
	}
	c.ob(steps > 0, "reachable", name, "no loop over the candles")
	for _, s := range []string{"none", "up", "down"} {
		c.ob(shapes[s] > 0, "reachable", name, "no step with fractals %q", s)
	}
	c.sites += steps
	r.each(func(o *Out) {
		ret := o.ret(0).(Slice)
		n := num(o.st.ghost["centre"])
		o.must("all-centres", Ge(n, Sub(z.cs.len, IntN(2))), "not every candle with two candles on each side is examined")
		if l, ok := o.st.ghost["$list"]; ok {
			c.ob(vKey(l) == vKey(contents(o.st, ret)), "returned", o.where(), "the result is not the list of the fractals found")
		} else {
			o.must("returned", Eq(ret.len, IntN(0)), "the result is not the list of the fractals found")
		}
		o.mustPure("input-kept", nil)
	})
}

// list finds the list of fractals that the iterations of a loop extend.
func (z *fractals) list(st *State, l *loopInfo) (Slice, bool) {
	var all []Slice
	add := func(v V) {
		if s, ok := v.(Slice); ok && s.elem.String() == z.elem {
			all = append(all, s)
		}
	}
	for _, ins := range l.head.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok {
			add(st.env[ph])
		}
	}
	for _, o := range st.mem {
		if o.kind == OCell {
			add(o.val)
		}
	}
	if len(all) != 1 {
		return Slice{}, false
	}
	return all[0], true
}

// contents describes the elements of a slice.
func contents(st *State, s Slice) V {
	out := Tuple{st.f.norm(s.len)}
	if s.nilL.op == LTrue || s.len.IsZero() {
		return out
	}
	for _, lf := range leaves(s.elem) {
		out = append(out, strConst(segsKey(canon(st, st.take(st.obj(s.obj).cols[lf.path], s.off, Add(s.off, s.len))).([]seg))))
	}
	return out
}

func (z *fractals) step(g *gen, h, b *State, where string, shapes map[string]int) {
	c := z.c
	ctr := num(h.ghost["centre"])
	var tl tail
	found := 0
	var elem Slice
	for _, p := range g.places(h) {
		s, ok := p.get(h).(Slice)
		if !ok || s.elem.String() != z.elem {
			continue
		}
		t, ok := g.tailOf(h, b, &pmodel{p: p})
		if !ok {
			c.ob(false, "appends", where, "the fractals found earlier are changed")
			return
		}
		tl, elem = t, p.get(b).(Slice)
		found++
	}
	if !c.ob(found == 1, "appends", where, "%d lists of fractals in the loop", found) {
		return
	}
	n, ok := tl.n.ConstInt()
	if !c.ob(ok && n <= 2, "appends", where, "the number of fractals found for one candle is not known") {
		return
	}
	var got []string
	for i := int64(0); i < n; i++ {
		v := &Struct{typ: elem.elem}
		for _, lf := range leaves(elem.elem) {
			v.f = append(v.f, b.readSegs(tl.cols[lf.path], IntN(i), &Obj{typ: lf.typ}))
		}
		typ, ok := b.f.normAtom(field(v, "Type").(*Atom)).(*Atom)
		if !c.ob(ok && typ.kind == KConst, "type", where, "the type of a fractal is not known") {
			return
		}
		x := extremes[0]
		if typ.name == "down" {
			x = extremes[1]
		}
		got = append(got, typ.name)
		c.ob(typ.name == x.typ, "type", where, "a fractal has type %q", typ.name)
		cd := z.run.oldElem(z.cs, ctr)
		c.ob(proveF(b.f, Eq(fieldN(v, "Time"), fieldN(cd, "Time"))), "time", where, "the time of a fractal is not that of its centre")
		c.ob(proveF(b.f, Eq(fieldN(v, "Price"), fieldN(cd, x.fld))), "price", where, "the price of a fractal is not the %s of its centre", x.fld)
	}
	key := fmt.Sprint(got)
	switch key {
	case "[]":
		shapes["none"]++
	case "[up]", "[down]":
		shapes[got[0]]++
	case "[up down]":
	default:
		c.ob(false, "order", where, "the fractals of one candle are %s", key)
	}
	for i, x := range extremes {
		has := false
		for _, s := range got {
			has = has || s == x.typ
		}
		_ = i
		var ok bool
		if has {
			ok = z.confirmed(b, x, ctr)
			c.ob(ok, "confirmed", where, "an unconfirmed %s fractal is reported", x.typ)
		} else {
			ok = z.unconfirmed(b, x, ctr)
			c.ob(ok, "reported", where, "a confirmed %s fractal is not reported", x.typ)
		}
		if !ok && c.log {
			fmt.Printf("---- %s has=%v centre %v\n%s", x.typ, has, ctr, b.dump())
		}
	}
}
