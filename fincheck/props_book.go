package main

// Order books.

import "fmt"

func init() {
	register("B01", "for an arbitrary pair of adjacent rows in every outcome of construction and of updates: ask prices do not decrease, bid prices do not increase (strictly so when no price occurred twice)", checkBookSorted)
	register("B02", "every outcome of construction: each side is the first min(given, maximum depth) rows of a sorted permutation of the given rows; updates never leave more rows than the maximum depth and cut only the worst rows", checkBookDepth)
	register("B03", "every outcome of an update, for an arbitrary row index: each row of the updated side is the one the positional specification of set, insert and remove demands; unknown sides are rejected without change", checkBookUpdate)
	register("B04", "every outcome of a non-zero update: the opposite side loses exactly its rows at or beyond the update's price and keeps the others in order; an uncrossed book stays uncrossed", checkBookCrossed)
	register("B05", "for an arbitrary row in every outcome of construction and of updates: the accumulated volume is the row's volume plus the accumulated volume of the preceding row", checkBookAccum)
	register("B06", "every outcome of the depth query: the result is the accumulated volume of the last row at or better than the price, for the unique row index characterised by its neighbours' prices; errors exactly outside both ranges", checkBookQuery)
	register("B07", "every outcome of the overlap computation equals the specified difference of sums, with the cut-off rows characterised by their neighbours' prices and volumes", checkOverlap)
}

type side struct {
	fld string
	dir string // order of prices: "<" ascending
}

var bookSides = []side{{"Asks", "<"}, {"Bids", ">"}}

func rowPrice(v V) Num { return fieldN(v, "Price") }

// cmp compares prices in the order of a side.
func (s side) before(a, b Num) Fm { return L(cmpLit(s.dir, a, b)) }
func (s side) notAfter(a, b Num) Fm {
	return L(cmpLit(s.dir+"=", a, b))
}

// entryElemAt: the entry element as a term over an index term.
func entryAt(st *State, s Slice, idx Num) V {
	return entryElem(st.obj(s.obj), Add(s.off, idx), "", s.elem)
}

// wellFormed assumes the invariants of a book on entry.
func wellFormed(st *State, ob V, strict, accum, bounded bool) {
	q, r := atomNum(qv), atomNum(rv)
	for _, sd := range bookSides {
		s := field(ob, sd.fld).(Slice)
		op := sd.dir
		if !strict {
			op += "="
		}
		st.assumeQ(mkQF(IntN(0), s.len, nil, cmpLit(op, rowPrice(entryAt(st, s, q)), rowPrice(entryAt(st, s, r))), true))
		if accum {
			a := func(i Num) Num { return fieldN(entryAt(st, s, i), "AccumVolume") }
			v := fieldN(entryAt(st, s, q), "Volume")
			zero := cmpLit("==", q, IntN(0))
			st.assumeQ(mkQF(IntN(0), s.len, []Lit{zero}, cmpLit("==", a(q), v), false))
			st.assumeQ(mkQF(IntN(0), s.len, []Lit{zero.Not()}, cmpLit("==", a(q), Add(v, a(Sub(q, IntN(1))))), false))
		}
		if bounded {
			st.assume(cmpLit("<=", s.len, fieldN(ob, "MaxDepth")))
		}
	}
	st.assume(cmpLit(">=", fieldN(ob, "MaxDepth"), IntN(0)))
}

func wfPrep(strict, accum bool) func(e *Eng, st *State, args []V) {
	return func(e *Eng, st *State, args []V) {
		wellFormed(st, st.load(args[0].(Ptr)), strict, accum, true)
	}
}

// update analyses the book update from a well-formed book.
func (c *Ctx) update(strict, accum bool) *Run {
	return c.run("market.OrderBook.ApplyUpdate", runOpt{prep: wfPrep(strict, accum)})
}

type bookOut struct {
	*Out
	b0, b1       V
	upd          V
	p, v         Num
	isAsk, isBid Fm
}

func (o *Out) book() *bookOut {
	b := &bookOut{Out: o, b0: o.old(o.arg(0)), b1: o.deref(o.arg(0)), upd: o.old(o.arg(1))}
	b.p, b.v = fieldN(b.upd, "Price"), fieldN(b.upd, "Volume")
	b.isAsk, b.isBid = Is(field(b.upd, "Side"), "ask"), Is(field(b.upd, "Side"), "bid")
	return b
}

func (o *Out) ordered(s Slice, sd side, strict bool) {
	o.forall(s, "k", func(st *State, k Num, v V) {
		st = st.clone()
		st.own()
		st.f = st.f.clone()
		st.assumeSafe(cmpLit(">=", k, IntN(1)))
		if st.f.dead || st.f.prove(litFalse) {
			return
		}
		o.at(st, s, Sub(k, IntN(1)), func(st *State, w V) {
			f, what := sd.notAfter(rowPrice(w), rowPrice(v)), "sorted"
			if strict {
				f, what = sd.before(rowPrice(w), rowPrice(v)), "strictly-sorted"
			}
			o.mustIn(st, what, f, "the prices of adjacent %s are out of order", sd.fld)
		})
	})
}

func checkBookSorted(c *Ctx) {
	if r := c.run("market.NewOrderBook", runOpt{}); r != nil {
		r.each(func(o *Out) {
			for _, sd := range bookSides {
				o.ordered(field(o.ret(0), sd.fld).(Slice), sd, false)
			}
		})
	}
	for _, strict := range []bool{false, true} {
		if r := c.update(strict, false); r != nil {
			r.each(func(o *Out) {
				b := o.deref(o.arg(0))
				for _, sd := range bookSides {
					o.ordered(field(b, sd.fld).(Slice), sd, strict)
				}
			})
		}
	}
}

func minN(f *Facts, a, b Num) (Num, bool) {
	if f.prove(cmpLit("<=", a, b)) {
		return a, true
	}
	if f.prove(cmpLit("<=", b, a)) {
		return b, true
	}
	return a, false
}

func checkBookDepth(c *Ctx) {
	if r := c.run("market.NewOrderBook", runOpt{}); r != nil {
		r.each(func(o *Out) {
			given := []Slice{o.arg(0).(Slice), o.arg(1).(Slice)}
			depth := num(o.arg(2))
			ob := o.ret(0)
			md := fieldN(ob, "MaxDepth")
			o.must("maximum-depth", Or(And(Ge(depth, IntN(0)), Eq(md, depth)), And(Lt(depth, IntN(0)), Eq(md, IntN(0)))), "the maximum depth of the book is not the given one")
			for i, sd := range bookSides {
				s, g := field(ob, sd.fld).(Slice), given[i]
				o.must("depth", Or(And(Le(g.len, md), Eq(s.len, g.len)), And(Gt(g.len, md), Eq(s.len, md))), "the number of %s is not the smaller of the given rows and the maximum depth", sd.fld)
				o.permuted(s, g, sd.fld)
			}
		})
	}
	if r := c.update(false, false); r != nil {
		r.each(func(o *Out) {
			b := o.deref(o.arg(0))
			md := fieldN(b, "MaxDepth")
			o.must("maximum-depth", Eq(md, fieldN(o.old(o.arg(0)), "MaxDepth")), "an update changes the maximum depth")
			for _, sd := range bookSides {
				o.must("depth", Le(field(b, sd.fld).(Slice).len, md), "an update leaves more %s than the maximum depth", sd.fld)
			}
		})
	}
}

// permuted: the rows of s are the leading rows of one sorted permutation of
// the given rows (or the given rows themselves when there are at most one).
func (o *Out) permuted(s, g Slice, name string) {
	if s.len.IsZero() || o.st.f.prove(cmpLit("<=", s.len, IntN(0))) {
		return
	}
	ob, src := o.st.obj(s.obj), o.st0.obj(g.obj)
	event := -1
	ok := true
	for _, l := range leaves(s.elem) {
		if l.path == fieldPath(s.elem, "AccumVolume") {
			continue
		}
		segs := mergeSegs(o.st.take(ob.cols[l.path], s.off, Add(s.off, s.len)))
		// unchanged content
		if len(segs) == 1 && len(src.cols[l.path]) == 1 && segs[0].arr != nil && segs[0].arr == src.cols[l.path][0].arr && o.st.f.prove(cmpLit("<=", g.len, IntN(1))) {
			continue
		}
		good := false
		if len(segs) == 1 && segs[0].arr != nil {
			a := segs[0]
			if in, is := o.e.sorted[a.arr]; is && o.st.f.prove(cmpLit("==", a.off, Num{})) && o.st.f.prove(cmpLit("==", in.n, g.len)) && len(in.src) == 1 && in.src[0].arr == src.cols[l.path][0].arr && o.st.f.prove(cmpLit("==", in.src[0].off, g.off)) {
				if event < 0 {
					event = in.event
				}
				good = in.event == event
			}
		}
		ok = ok && good
	}
	o.c.ob(ok, "rows-kept", o.where(), "the %s are not the leading rows of the sorted given rows", name)
}

// atBoth reads element idx of the side before and after.
func (o *bookOut) forallRows(st0 *State, s1 Slice, f func(st *State, k Num, v V)) {
	for _, g := range []*State{st0} {
		out := &Out{o.Run, g, o.i}
		out.forall(s1, "k", f)
	}
}

// sameRow: price and volume are those of the given row.
func sameRow(a, b V) Fm {
	return And(Eq(fieldN(a, "Price"), fieldN(b, "Price")), Eq(fieldN(a, "Volume"), fieldN(b, "Volume")))
}

func isRow(a V, p, v Num) Fm {
	return And(Eq(fieldN(a, "Price"), p), Eq(fieldN(a, "Volume"), v))
}

func checkBookUpdate(c *Ctx) {
	r := c.update(true, false)
	if r == nil {
		return
	}
	seen := map[string]int{}
	r.each(func(o *Out) {
		b := o.book()
		e := o.ret(0)
		o.must("rejects-iff", Iff(Not(errNil(e)), Not(Or(b.isAsk, b.isBid))), "an update is rejected although its side is ask or bid, or accepted although it is not")
		if proveF(o.st.f, Not(errNil(e))) {
			seen["rejected"]++
			o.mustCode(e, "invalid")
			o.mustPure("rejected-unchanged", nil)
			return
		}
		o.must("time", Eq(fieldN(b.b0, "Time"), fieldN(b.b1, "Time")), "an update changes the time of the book")
		for i, sd := range bookSides {
			mine := b.isAsk
			if i == 1 {
				mine = b.isBid
			}
			s0, s1 := field(b.b0, sd.fld).(Slice), field(b.b1, sd.fld).(Slice)
			// the updated side
			o.with(And(mine, Ne(b.v, IntN(0))), func(st *State) {
				b.levels(st, s0, s1, sd, true, seen)
			})
			o.with(And(mine, Eq(b.v, IntN(0))), func(st *State) {
				b.levels(st, s0, s1, sd, false, seen)
			})
			// removal leaves the other side alone
			o.with(And(Not(mine), Eq(b.v, IntN(0))), func(st *State) {
				o.mustIn(st, "other-side", Eq(s0.len, s1.len), "removing a level changes the other side")
				b.forallRows(st, s1, func(st *State, k Num, v V) {
					o.mustIn(st, "other-side", sameRow(v, o.oldElem(s0, k)), "removing a level changes a row of the other side")
				})
			})
		}
	})
	for _, k := range []string{"rejected", "set-existing", "set-new", "remove-existing", "remove-missing"} {
		c.ob(seen[k] > 0, "reachable", "market.OrderBook.ApplyUpdate", "no outcome for case %s", k)
	}
}

// levels checks the updated side row by row, with the level existing or not.
func (b *bookOut) levels(st *State, s0, s1 Slice, sd side, set bool, seen map[string]int) {
	o := b.Out
	one := IntN(1)
	// case: a row with the update's price exists
	j := atomNum(freshSym("j", SInt))
	have := st.clone()
	have.own()
	have.f = have.f.clone()
	have.assumeSafe(cmpLit(">=", j, IntN(0)))
	have.assumeSafe(cmpLit("<", j, s0.len))
	have.assumeSafe(cmpLit("==", rowPrice(o.oldElem(s0, j)), b.p))
	if !have.f.dead && !have.f.refute([]Term{j, b.p}, 3) && b.locate(have, s0, j) {
		if set {
			seen["set-existing"]++
			o.mustIn(have, "length", Eq(s1.len, s0.len), "replacing a level changes the number of %s", sd.fld)
			b.forallRows(have, s1, func(st *State, k Num, v V) {
				o.mustIn(st, "replaced", Imp(Eq(k, j), isRow(v, b.p, b.v)), "the level does not have the update's volume")
				o.mustIn(st, "kept", Imp(Ne(k, j), sameRow(v, o.oldElem(s0, k))), "replacing a level changes another row")
			})
		} else {
			seen["remove-existing"]++
			o.mustIn(have, "length", Eq(s1.len, Sub(s0.len, one)), "removing a level does not remove exactly one row")
			b.forallRows(have, s1, func(st *State, k Num, v V) {
				o.mustIn(st, "kept", Imp(Lt(k, j), sameRow(v, o.oldElem(s0, k))), "removing a level changes an earlier row")
				o.mustIn(st, "moved", Imp(Ge(k, j), sameRow(v, o.oldElem(s0, Add(k, one)))), "removing a level loses a later row")
			})
		}
	}
	// case: no such row
	none := st.clone()
	none.own()
	none.f = none.f.clone()
	none.assumeQ(mkQF(IntN(0), s0.len, nil, cmpLit("!=", rowPrice(o.oldElem(s0, atomNum(qv))), b.p), false))
	if none.f.refute([]Term{b.p, s0.len}, 3) {
		return
	}
	if !set {
		seen["remove-missing"]++
		o.mustIn(none, "length", Eq(s1.len, s0.len), "removing a missing level changes the number of %s", sd.fld)
		b.forallRows(none, s1, func(st *State, k Num, v V) {
			o.mustIn(st, "kept", sameRow(v, o.oldElem(s0, k)), "removing a missing level changes a row")
		})
		return
	}
	seen["set-new"]++
	md := fieldN(b.b0, "MaxDepth")
	n1 := Add(s0.len, one)
	o.mustIn(none, "length", Or(And(Le(n1, md), Eq(s1.len, n1)), And(Gt(n1, md), Eq(s1.len, md))), "inserting a level does not add exactly one row up to the maximum depth")
	b.forallRows(none, s1, func(st *State, k Num, v V) {
		at := func(i Num) V { return o.oldElem(s0, i) }
		lower := sd.before(rowPrice(at(k)), b.p)               // row k comes before the new level
		lowerPrev := sd.before(rowPrice(at(Sub(k, one))), b.p) // row k-1 does
		o.mustIn(st, "kept", Imp(And(Lt(k, s0.len), lower), sameRow(v, at(k))), "inserting a level changes a better row")
		o.mustIn(st, "inserted", Imp(And(Or(Ge(k, s0.len), Not(lower)), Or(Eq(k, IntN(0)), lowerPrev)), isRow(v, b.p, b.v)), "the new level is not where its price belongs")
		o.mustIn(st, "moved", Imp(And(Ge(k, one), Not(lowerPrev)), sameRow(v, at(Sub(k, one)))), "inserting a level loses a worse row")
	})
}

// locate orders the index j of the old rows against the other indices the
// outcome speaks about, as far as their prices decide that. It reports whether
// the case is possible.
func (b *bookOut) locate(st *State, s Slice, j Num) bool {
	var arr *Arr
	rowPrice(b.oldElem(s, j)).atoms(func(a *Atom) {
		if a.kind == KSel && arr == nil {
			arr = a.arr
		}
	})
	if arr == nil {
		return true
	}
	var idx []Num
	has := map[string]bool{j.Key(): true}
	add := func(i Num) {
		if k := i.Key(); !has[k] && !occurs(i, qv) && !occurs(i, rv) {
			has[k] = true
			idx = append(idx, i)
		}
	}
	visit := func(n Num) {
		n.atoms(func(a *Atom) {
			if a.kind == KSel && a.arr == arr {
				add(a.args[0].(Num))
			}
		})
	}
	for _, l := range st.f.lits {
		visit(l.n)
	}
	for _, q := range st.f.qs {
		about := false
		q.body.n.atoms(func(a *Atom) { about = about || a.kind == KSel && a.arr == arr })
		if about {
			add(q.lo)
			add(q.hi)
		}
	}
	for _, i := range idx {
		var left []Lit
		for _, op := range []string{"<", "==", ">"} {
			l := cmpLit(op, j, i)
			x := st.clone()
			x.own()
			x.f = x.f.clone()
			x.assumeSafe(l)
			if !x.f.dead && !x.f.refute([]Term{j, i, b.p}, 3) {
				left = append(left, l)
			} else if op != "==" {
				st.assumeSafe(l.Not())
			}
		}
		if len(left) == 0 {
			return false
		}
		if len(left) == 1 {
			st.assumeSafe(left[0])
		}
	}
	return !st.f.dead
}

func checkBookCrossed(c *Ctx) {
	r := c.update(false, false)
	if r == nil {
		return
	}
	n := 0
	r.each(func(o *Out) {
		b := o.book()
		if proveF(o.st.f, Not(errNil(o.ret(0)))) {
			return
		}
		for i, sd := range bookSides {
			other := b.isBid // the update is on the opposite side
			if i == 1 {
				other = b.isAsk
			}
			s0, s1 := field(b.b0, sd.fld).(Slice), field(b.b1, sd.fld).(Slice)
			o.with(And(other, Ne(b.v, IntN(0))), func(st *State) {
				n++
				m := Sub(s0.len, s1.len) // rows evicted
				o.mustIn(st, "evicted", Ge(m, IntN(0)), "the opposite side grows")
				b.forallRows(st, s1, func(st *State, k Num, v V) {
					o.mustIn(st, "not-crossed", sd.before(b.p, rowPrice(v)), "a row of the opposite side is at or beyond the update's price")
					o.mustIn(st, "kept", sameRow(v, o.oldElem(s0, Add(k, m))), "a kept row of the opposite side is changed")
				})
				j := atomNum(freshSym("j", SInt))
				ev := st.clone()
				ev.own()
				ev.f = ev.f.clone()
				ev.assumeSafe(cmpLit(">=", j, IntN(0)))
				ev.assumeSafe(cmpLit("<", j, m))
				if !ev.f.dead && !ev.f.refute([]Term{j}, 3) {
					o.mustIn(ev, "evicted", sd.notAfter(rowPrice(o.oldElem(s0, j)), b.p), "a row that is not crossed is evicted")
				}
			})
			o.with(And(other, Eq(b.v, IntN(0))), func(st *State) {
				o.mustIn(st, "removal", Eq(s0.len, s1.len), "removing a level evicts rows of the opposite side")
				b.forallRows(st, s1, func(st *State, k Num, v V) {
					o.mustIn(st, "removal", sameRow(v, o.oldElem(s0, k)), "removing a level changes a row of the opposite side")
				})
			})
		}
	})
	c.ob(n > 0, "reachable", "market.OrderBook.ApplyUpdate", "no outcome of a non-zero update")
	// an uncrossed book stays uncrossed
	r = c.run("market.OrderBook.ApplyUpdate", runOpt{prep: func(e *Eng, st *State, args []V) {
		ob := st.load(args[0].(Ptr))
		wellFormed(st, ob, false, false, true)
		a, b := field(ob, "Asks").(Slice), field(ob, "Bids").(Slice)
		// best bid below best ask, stated for all rows of both sides
		st.assumeQ(mkQF(IntN(0), a.len, []Lit{cmpLit(">", b.len, IntN(0))}, cmpLit(">", rowPrice(entryAt(st, a, atomNum(qv))), rowPrice(entryAt(st, b, IntN(0)))), false))
		st.assumeQ(mkQF(IntN(0), b.len, []Lit{cmpLit(">", a.len, IntN(0))}, cmpLit("<", rowPrice(entryAt(st, b, atomNum(qv))), rowPrice(entryAt(st, a, IntN(0)))), false))
	}})
	if r == nil {
		return
	}
	r.each(func(o *Out) {
		b1 := o.deref(o.arg(0))
		a, b := field(b1, "Asks").(Slice), field(b1, "Bids").(Slice)
		o.with(And(Gt(a.len, IntN(0)), Gt(b.len, IntN(0))), func(st *State) {
			o.at(st, a, IntN(0), func(st *State, x V) {
				o.at(st, b, IntN(0), func(st *State, y V) {
					o.mustIn(st, "uncrossed", Gt(rowPrice(x), rowPrice(y)), "an update crosses the book")
				})
			})
		})
	})
}

func (o *Out) accumulated(s Slice, name string) {
	o.forall(s, "k", func(st *State, k Num, v V) {
		acc, vol := fieldN(v, "AccumVolume"), fieldN(v, "Volume")
		o.mustIn(st, "first", Imp(Eq(k, IntN(0)), Eq(acc, vol)), "the accumulated volume of the first of %s is not its volume", name)
		st = st.clone()
		st.own()
		st.f = st.f.clone()
		st.assumeSafe(cmpLit(">=", k, IntN(1)))
		if st.f.dead || st.f.prove(litFalse) {
			return
		}
		o.at(st, s, Sub(k, IntN(1)), func(st *State, w V) {
			o.mustIn(st, "running-total", Eq(acc, Add(vol, fieldN(w, "AccumVolume"))), "the accumulated volume of %s is not the running total", name)
		})
	})
}

func checkBookAccum(c *Ctx) {
	if r := c.run("market.NewOrderBook", runOpt{}); r != nil {
		r.each(func(o *Out) {
			for _, sd := range bookSides {
				o.accumulated(field(o.ret(0), sd.fld).(Slice), sd.fld)
			}
		})
	}
	if r := c.update(false, true); r != nil {
		r.each(func(o *Out) {
			b := o.deref(o.arg(0))
			for _, sd := range bookSides {
				o.accumulated(field(b, sd.fld).(Slice), sd.fld)
			}
		})
	}
}

func checkBookQuery(c *Ctx) {
	r := c.run("market.OrderBook.GetDepth", runOpt{prep: func(e *Eng, st *State, args []V) {
		wellFormed(st, st.load(args[0].(Ptr)), false, true, false)
	}})
	if r == nil {
		return
	}
	found := 0
	r.each(func(o *Out) {
		ob := o.old(o.arg(0))
		p := num(o.arg(1))
		e := o.ret(1)
		a, b := field(ob, "Asks").(Slice), field(ob, "Bids").(Slice)
		one := IntN(1)
		in := func(s Slice, sd side) Fm {
			return And(Gt(s.len, IntN(0)), sd.notAfter(rowPrice(o.oldElem(s, IntN(0))), p), sd.notAfter(p, rowPrice(o.oldElem(s, Sub(s.len, one)))))
		}
		inA, inB := in(a, bookSides[0]), in(b, bookSides[1])
		pos := Gt(p, IntN(0))
		o.must("rejects-iff", Iff(errNil(e), And(pos, Or(inA, inB))), "a depth is returned for a price outside both sides, or an error for one inside")
		o.mustPure("book-unchanged", nil)
		if proveF(o.st.f, Not(errNil(e))) {
			code := o.errCode(e)
			if code == nil {
				c.ob(false, "error-code", o.where(), "the code of the returned error is unknown")
				return
			}
			o.must("error-code", Imp(Not(pos), Is(code, "invalid")), "a price that is not positive is not rejected as invalid")
			o.must("error-code", Imp(pos, Is(code, "not_found")), "a price outside the book is not reported as not found")
			return
		}
		found++
		got := num(o.ret(0))
		for i, s := range []Slice{a, b} {
			sd := bookSides[i]
			cond := inA
			if i == 1 {
				cond = And(Not(inA), inB)
			}
			j := atomNum(freshSym("j", SInt))
			at := func(x Num) V { return o.oldElem(s, x) }
			// j is the last row at or better than the price
			last := And(cond, Ge(j, IntN(0)), Lt(j, s.len), sd.notAfter(rowPrice(at(j)), p),
				Or(Eq(j, Sub(s.len, one)), And(Lt(j, Sub(s.len, one)), sd.before(p, rowPrice(at(Add(j, one)))))))
			o.with(last, func(st *State) {
				o.mustIn(st, "depth", Eq(got, fieldN(at(j), "AccumVolume")), "the result is not the accumulated volume of the last row at or better than the price")
			})
		}
	})
	c.ob(found > 0, "reachable", "market.OrderBook.GetDepth", "no outcome returns a depth")
}

// pin finds what an index characterised by the facts is equal to, among the
// ends of the sums in v and the given terms, and assumes the equality.
func pin(st *State, x Num, v Num, more ...Num) bool {
	cands := append([]Num(nil), more...)
	deep(v, func(a *Atom) {
		if a.kind == KPrefix {
			if n := a.args[1].(Num); termLvl(n) == 0 {
				cands = append(cands, n)
			}
		}
	})
	seen := map[string]bool{}
	for _, c := range cands {
		if seen[c.Key()] {
			continue
		}
		seen[c.Key()] = true
		l := cmpLit("==", x, c)
		if st.f.prove(l) || st.f.proveIdx(l) {
			st.own()
			st.f = st.f.clone()
			st.assumeSafe(l)
			return true
		}
	}
	return false
}

func checkOverlap(c *Ctx) {
	r := c.run("market.CalculateOverlap", runOpt{})
	if r == nil {
		return
	}
	zero, one := IntN(0), IntN(1)
	n := 0
	r.each(func(o *Out) {
		A, B := o.old(o.arg(0)), o.old(o.arg(1))
		asks := func(b V) Slice { return field(b, "Asks").(Slice) }
		bids := func(b V) Slice { return field(b, "Bids").(Slice) }
		first := func(s Slice) Num { return rowPrice(o.oldElem(s, zero)) }
		overlap := func(x, y V) Fm {
			return And(Gt(asks(x).len, zero), Gt(bids(y).len, zero), Lt(first(asks(x)), first(bids(y))))
		}
		ab, ba := overlap(A, B), overlap(B, A)
		e := o.ret(1)
		o.must("rejects-iff", Iff(errNil(e), Or(ab, ba)), "an overlap is reported although no best ask is below the other book's best bid, or missed although one is")
		o.mustPure("books-unchanged", nil)
		got := num(o.ret(0))
		if proveF(o.st.f, Not(errNil(e))) {
			o.mustCode(e, "not_found")
			o.must("no-overlap", Eq(got, IntN(-1)), "the result without an overlap is not -1")
			return
		}
		for i, cond := range []Fm{ab, And(Not(ab), ba)} {
			x, y := A, B
			if i == 1 {
				x, y = B, A
			}
			o.with(cond, func(st *State) {
				n++
				o.overlapResult(st, asks(x), bids(y), got, zero, one)
			})
		}
	})
	c.ob(n > 0, "reachable", "market.CalculateOverlap", "no outcome with an overlap")
}

func (o *Out) overlapResult(st *State, as, bs Slice, got, zero, one Num) {
	price := func(s Slice, i Num) Num { return rowPrice(o.oldElem(s, i)) }
	vol := func(s Slice, i Num) Num { return fieldN(o.oldElem(s, i), "Volume") }
	q := atomNum(qv)
	// the end of the leading rows on which cond holds
	lead := func(st *State, name string, s Slice, cond func(i Num) Lit, f func(st *State, x Num)) {
		x := atomNum(freshSym(name, SInt))
		for _, all := range []bool{true, false} {
			t := st.copyFree()
			t.assumeSafe(cmpLit(">=", x, zero))
			t.assumeQ(mkQF(zero, x, nil, cond(q), false))
			if all {
				t.assumeSafe(cmpLit("==", x, s.len))
			} else {
				t.assumeSafe(cmpLit("<", x, s.len))
				t.assumeSafe(cond(x).Not())
			}
			if !t.f.dead && !t.f.refute(nil, 3) {
				f(t, x)
			}
		}
	}
	sum := func(s Slice, lo, hi Num, f func(i Num) Num) Num {
		v := freshSym("v", SInt)
		return SumN(f(atomNum(v)), v, lo, hi)
	}
	lead(st, "a", as, func(i Num) Lit { return cmpLit("<=", price(as, i), price(bs, zero)) }, func(st *State, a Num) {
		if !o.c.ob(pin(st, a, got, as.len), "overlapping-asks", o.where(), "the summed asks are not those up to the other book's best bid") {
			o.show(st)
			return
		}
		lead(st, "m", bs, func(i Num) Lit { return cmpLit(">=", price(bs, i), price(as, zero)) }, func(st *State, m Num) {
			if !o.c.ob(pin(st, m, got, bs.len), "overlapping-bids", o.where(), "the bids considered are not those down to the other book's best ask") {
				o.show(st)
				return
			}
			volA := sum(as, zero, a, func(i Num) Num { return vol(as, i) })
			// rows s..m-1 are sold into completely, row s-1 partly
			from := func(i Num) Num {
				return Add(vol(bs, i), sum(bs, Add(i, one), m, func(i Num) Num { return vol(bs, i) }))
			}
			s := atomNum(freshSym("s", SInt))
			st.assumeSafe(cmpLit(">=", s, zero))
			st.assumeSafe(cmpLit("<=", s, m))
			st.assumeQ(mkQF(s, m, nil, cmpLit("<=", from(q), volA), false))
			for _, part := range []Lit{cmpLit("==", s, zero), cmpLit(">", s, zero)} {
				t := st.copyFree()
				t.assumeSafe(part)
				want := sum(bs, s, m, func(i Num) Num { return Mul(price(bs, i), vol(bs, i)) })
				if part.op != LEq {
					t.assumeSafe(cmpLit(">", from(Sub(s, one)), volA))
					want = Add(want, Mul(Sub(volA, sum(bs, s, m, func(i Num) Num { return vol(bs, i) })), price(bs, Sub(s, one))))
				}
				if t.f.dead || t.f.refute(nil, 3) {
					continue
				}
				if !o.c.ob(pin(t, s, got, zero), "cut-off", o.where(), "the bids are not consumed from the lowest overlapping one up to the asks' volume") {
					o.show(t)
					continue
				}
				d := Sub(sum(as, zero, a, func(i Num) Num { return Mul(price(as, i), vol(as, i)) }), want)
				o.mustIn(t, "result", Or(And(Eq(got, d), Ge(d, zero)), And(Eq(got, Neg(d)), Le(d, zero))), "the result is not the absolute difference of the asks' and the bids' value")
			}
		})
	})
}

// copyFree is a copy whose facts can be extended freely.
func (st *State) copyFree() *State {
	t := st.clone()
	t.own()
	t.f = t.f.clone()
	return t
}

func (o *Out) show(st *State) {
	if o.c.log {
		fmt.Println(st.dump())
	}
}
